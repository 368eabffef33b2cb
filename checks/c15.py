from vlib import *

DIRS = ["assert", "utils", "math", "transforms", "curves", "actor/state", "time"]


def main(c):
    exe = build("trajectory", ["trajectory.cc"], DIRS)
    c.design("TrajectoryMC", "CONSTANTS MaxLen = %d\nT = {1, 2, 3, 4%s}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
             "INVARIANTS Increasing OneFrame Grows Total Order\n" % c.q((3, ""), (4, ", 5")))
    scripts = c.gen("TCurveGen", "CONSTANTS Depth = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % c.q(3, 4))
    sp = os.path.join(scratch(), "script.txt")
    with open(sp, "w") as f:
        for s in scripts:
            f.write(" ".join("%s %d %d %d" % (o["op"], o["m"], o["f"], o["c"]) for o in s) + "\n")
    tr = c.harness(exe, [c.seed, c.q(700, 12000), sp], "trace.ndjson")
    c.validate("TrajectoryTrace", tr)
    c.assumptions += ["trajectories shorter than about 12 days, so that distinct nanoseconds stay distinct in seconds"]
