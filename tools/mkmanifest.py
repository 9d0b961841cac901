"""writes ../MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contracts on the real source, discharged by symbolic execution + equality prover with z3; counterexamples replayed on real torch"
N = {
 "C01": "All sizes, batch sizes, kernel sizes, paddings, inputs and weights symbolic; option values listed in engine/leaf.py.",
 "C02": "As C01, with respect to the parameters.",
 "C03": "As C01, any number of columns.", "C04": "As C01, any number of rows; both convolution implementations.",
 "C05": "As C01, any matrix.", "C06": "As C01, any matrix.",
 "C07": "For every layer supplying its Jacobian: forward and Jacobian are uninterpreted functions.",
 "C08": "Over abstract layers (any layer honouring the layer contract), all sizes and the number of layers symbolic (loops over layers cut by inferred invariants); nesting by induction on the layer contract.",
 "C09": "Over abstract layers, any number of them.",
 "C10": "As C08/C09 with uninterpreted diagonal maps; elementary layers as C05/C06.",
 "C11": "As C03-C06, C08, C09 with None.",
 "C12": "After an arbitrary history (all state forgotten), and after explicit histories; set_weight in between.",
 "C15": "Over an abstract model (uninterpreted forward and derivative), any output shape of the listed ranks.",
 "C16": "As C15; list of blocks of any length and nesting.", "C17": "Containers of any depth over the contracts of parameters_to_vector and Module.parameters; listed patterns; sizes and values symbolic.",
 "C18": "Any number of layers: each layer kind at an arbitrary position, nested networks by induction; twin execution of the torch.nn layer and the converted one, sizes and values symbolic, option values listed in engine/cfg.py.",
 "C19": "Any block size, list length and nesting (structural induction). Contracts of cholesky and cholesky_inverse assumed.",
 "C20": "Configurations listed in engine/cfg.py; kernel, sizes, values symbolic.",
 "C21": "Twin execution of the nnj layer and the torch.nn layer; sizes and values symbolic.",
 "C13": "Frame conditions on every argument and parameter.", "C14": "Types tracked through every operation, both directions of the default type.",
}
D = "Contracts discharged for all sizes and values."
TR = " Trusted: the contracts of the torch operations (symtorch.py, symnn.py), the prover, z3; floats are reals."
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "engine/prove.py discharges the obligations of a property; engine/rt.py evaluates the same postconditions on the real code (replay, bounded stand-in). See DESIGN.md."}
for k in range(1, 22):
    i = "C%02d" % k
    m["checks"].append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i, "technique": T, "level": "proof", "level_note": N.get(i, D) + TR})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
