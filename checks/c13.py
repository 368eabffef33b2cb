from vlib import *

DIRS = ["assert", "utils", "math", "transforms", "curves"]


def main(c):
    exe = build("d_curve", ["d_curve.cc"], DIRS)
    c.design("DCurveMC", "CONSTANTS MaxLen = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
             "INVARIANTS OneFrame Meet Invariance Symmetric ZeroIff AxisFixed Runs\n" % c.q(3, 4))
    scripts = c.gen("DCurveGen", "CONSTANTS Depth = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % c.q(3, 4))
    sp = os.path.join(scratch(), "script.txt")
    with open(sp, "w") as f:
        for s in scripts:
            f.write(" ".join("%s %d %d %d" % (o["op"], o["m"], o["f"], o["c"]) for o in s) + "\n")
    tr = c.harness(exe, [c.seed, c.q(600, 8000), sp], "trace.ndjson")
    c.validate("DCurveTrace", tr)
    c.assumptions += ["exact values for lattice poses (all 24 lattice rotations, integer displacements in units from 1e-6 to "
                      "1e5); arbitrary poses against an independent logarithm, to parts in 10^6"]
