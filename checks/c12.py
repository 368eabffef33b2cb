from vlib import *
from c10 import group_exe, mc, script


def main(c):
    exe = group_exe()
    c.design("RigidGroupMC", mc("jets"))
    tr = c.harness(exe, ["jets", c.seed, c.q(5000, 60000), script(c, [])], "trace.ndjson")
    c.validate("RigidGroupTrace", tr)
    c.assumptions += ["lattice rotations, integer translations and derivatives (all operations are polynomial in them)"]
