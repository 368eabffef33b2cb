from vlib import *

DIRS = ["assert", "utils", "math", "transforms", "curves", "actor/state", "time"]
INVS = "INVARIANTS Assoc AssocF InvLaw InvAnti NeverHalf ActHom AdHom AdBracket Jacobi JetInv JetFlip JetSides\n"


def mc(part, tr="{1}"):
    return "CONSTANTS Part = \"%s\"\nTR = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" % (part, tr) + INVS


def script(c, scripts):
    sp = os.path.join(scratch(), "script.txt")
    with open(sp, "w") as f:
        for s in scripts:
            f.write(";".join(s) + "\n")
    return sp


def group_exe():
    return build("group", ["group.cc"], DIRS)


def main(c):
    exe = group_exe()
    c.design("RigidGroupMC", mc("frames"))
    scripts = c.gen("FramesGen", "CONSTANTS Level = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % c.q(1, 2))
    tr = c.harness(exe, ["frames", c.seed, c.q(2500, 40000), script(c, scripts)], "trace.ndjson")
    c.validate("RigidGroupTrace", tr)
    c.assumptions += ["lattice rotations and small integer coordinates (frame rules do not depend on coordinates)"]
