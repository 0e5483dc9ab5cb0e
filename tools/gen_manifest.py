import json, os
T = {
"C01": ("structural monitor on every node of fitted trees (rows, limits, routing)", "exploration"),
"C02": ("reference recomputation of every node's value and of all candidate split gains", "exploration"),
"C03": ("reference recomputation of squared-error splits, means and Newton leaves", "exploration"),
"C04": ("predictions compared with an independent evaluation of the exported model", "exploration"),
"C05": ("online checker of the training trace through a recording loss function", "exploration"),
"C06": ("distribution invariant asserted on every prediction, extreme scores", "exploration"),
"C07": ("trace checker of early stopping under scripted loss sequences", "exploration"),
"C08": ("decoding of each tree's rows from power-of-two gradients, statistical monitors", "exploration"),
"C09": ("reference label encoding and metamorphic relabelling", "exploration"),
"C10": ("save/load round trip compared bit for bit", "exploration"),
"C11": ("every truncation offset, failing write and failing read of model files injected", "fault_enumeration"),
"C12": ("text round trips and generated texts against an independent reader", "exploration"),
"C13": ("mutated inputs and injected read faults against an error oracle", "exploration"),
"C14": ("conservation checker of folds (disjoint, complete, attached labels)", "exploration"),
"C15": ("exact simulation of every training seen by a recording loss, leakage-exposing data", "exploration"),
"C16": ("trace of all cross-validations compared with the enumerated grid, injected delays", "exploration"),
"C17": ("returned incumbent compared with the trace of all cross-validations", "exploration"),
"C18": ("goroutine leak monitor and deadlock/non-termination detector", "exploration"),
"C19": ("Go race detector plus comparison with sequential results", "exploration"),
"C20": ("deep snapshots with guard elements around every API call", "exploration"),
"C21": ("independent counts over the exported model's predictions", "exploration"),
"C22": ("sums over exported splits and over recorded histories of additions", "exploration"),
"C23": ("reflection over every option field, values around every bound", "exploration"),
"C24": ("reference losses, gradients and hessians with dirty destinations", "exploration"),
"C25": ("reference kernels, whole-matrix comparison around views", "exploration"),
"C26": ("re-training after and beside other work, power-of-two scaling", "exploration"),
"C27": ("generated name files against the pairs written into them", "exploration"),
"C28": ("per-field comparison of options before and after steps, bounds monitor", "exploration"),
"C29": ("model files left in a scratch directory compared with the search trace", "exploration"),
"C30": ("printed trees parsed and compared with their nodes in pre-order", "exploration"),
"C31": ("direction of every parameter's move against the accuracies traced on both sides; coverage of starting points", "exploration"),
"C32": ("printed text parsed and compared value by value", "exploration"),
"C33": ("captured output and exported models with and without verbosity, options and history", "exploration"),
}
NOTE = "Runs the real code, built from /repo's working tree, on a fixed list of generated cases (VERIF_SEED) under an oracle that is independent of the implementation; holds for what was executed, not proved for all inputs. Trusts the Go toolchain, gonum and the harness's oracle."
checks = []
for k, (t, l) in T.items():
    note = NOTE
    if k == "C11":
        note = "Enumerates every truncation offset, every failing write and read faults of each generated model file; the models themselves are sampled. " + NOTE
    if k == "C19":
        note = "Built with -race: a race is reported only if the accesses are executed unordered in some run; result comparison catches lost updates. " + NOTE
    checks.append({"property": k, "quick_cmd": f"python3 check.py {k}", "thorough_cmd": f"python3 check.py {k} --tier thorough",
                   "technique": "runtime monitoring: " + t, "level": l, "level_note": note})
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "verif (Go build tag)", "enable": "go build -tags verif: package cv then exports Trace, called at the beginning and end of every cross-validation",
               "source_commits": ["9dbf701", "78c30ca"]},
     "checks": checks, "not_applicable": [],
     "notes": "Every check builds the harness in a temporary directory from /repo's working tree. Violations write a replay file in out/."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
