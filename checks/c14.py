from vlib import *

DIRS = ["assert", "utils", "math", "transforms", "curves"]


def main(c):
    exe = build("t_curve", ["t_curve.cc"], DIRS)
    c.design("TCurveMC", "CONSTANTS R = %d\nQ = {2, 3}\nSPECIFICATION Spec\nINVARIANTS Reproduces Attains Reversal\n" % c.q(1, 2))
    scripts = c.gen("TCurveGen", "CONSTANTS Depth = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % c.q(3, 4))
    sp = os.path.join(scratch(), "script.txt")
    with open(sp, "w") as f:
        for s in scripts:
            f.write(" ".join("%s %d %d %d" % (o["op"], o["m"], o["f"], o["c"]) for o in s) + "\n")
    tr = c.harness(exe, [c.seed, c.q(1200, 12000), sp], "trace.ndjson")
    c.validate("TCurveTrace", tr)
    c.assumptions += ["exact interior values only for motion along one direction of the group; for general motion the "
                      "derivatives are checked against five-point differences of the pose (parts in 10^5)"]
