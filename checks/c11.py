from vlib import *
from c10 import group_exe, mc, script


def main(c):
    exe = group_exe()
    c.design("RigidGroupMC", mc("so3"))
    c.design("RigidGroupMC", mc("se3", c.q("{0, 1}", "{0, 1, 3}")))
    c.design("SubgroupMC", "CONSTANT K = %d\nSPECIFICATION Spec\nINVARIANT Laws\n" % c.q(24, 64))
    tr = c.harness(exe, ["words", c.seed, c.q(4000, 100000), script(c, [])], "trace.ndjson")
    c.validate("RigidGroupTrace", tr)
    exe2 = build("lie", ["lie.cc"], ["assert", "utils", "math", "transforms"])
    tr2 = c.harness(exe2, [c.seed, c.q(4000, 100000)], "subgroup.ndjson")
    c.validate("SubgroupTrace", tr2)
    c.assumptions += ["exact on the lattice of signed permutation rotations and integer translations",
                      "other angles: agreement with an extended-precision reference within 40 (rotation) or 4000 "
                      "(translation) machine epsilons per rounding"]
