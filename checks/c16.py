from vlib import *

DIRS = ["assert", "utils", "utils/proto", "math", "time", "transforms", "transforms/proto", "curves", "curves/proto",
        "actor/state", "actor/state/proto"]


def main(c, view=False):
    if view:
        exe = build("codec_view", ["codec.cc"], DIRS + ["visualization/proto"], extra=["-DVT_VIEW"], protos=True)
    else:
        exe = build("codec", ["codec.cc"], DIRS, protos=True)
    c.design("CodecMC", "CONSTANTS Depth = %d\nVals = {\"a\", \"b\"}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT LastPacked\n" % c.q(5, 7))
    scripts = c.gen("CodecGen", "CONSTANTS Depth = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (c.q(3, 4) if view else c.q(4, 5)))
    sp = os.path.join(scratch(), "script.txt")
    with open(sp, "w") as f:
        for s in scripts:
            f.write(" ".join(s) + "\n")
    tr = c.harness(exe, ["view" if view else "data", c.seed, c.q(600, 6000) if view else c.q(1500, 15000), sp], "trace.ndjson")
    c.validate("CodecTrace", tr)
    c.assumptions += ["poses (lattice ones, generic ones, angles near 0 and pi, translations from 1e-6 to 1e7) travel as "
                      "logarithms, so they are compared up to a relative 1e-6; everything else is compared bit for bit"]
