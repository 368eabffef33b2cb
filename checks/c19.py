from vlib import *


def main(c):
    exe = build("gauss", ["gauss.cc"], ["assert", "math"])
    c.design("GaussMC", "CONSTANTS Ent2 <- Wide\nEnt3 <- Narrow\nSampleVals <- Narrow\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
             "INVARIANTS Forms StrictImplies CovPSD Shift Order\n")
    scripts = c.gen("GaussGen", "CONSTANTS Depth = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % c.q(3, 4))
    sp = os.path.join(scratch(), "script.txt")
    with open(sp, "w") as f:
        for s in scripts:
            f.write(" ".join("%s %d %d" % tuple(o) for o in s) + "\n")
    tr = c.harness(exe, [c.seed, c.q(400, 4000), c.q(2, 3), sp], "trace.ndjson")
    c.validate("GaussTrace", tr)
    c.assumptions += ["covariances are integer matrices times powers of two (classified exactly by principal minors)",
                      "sample moments are judged at five standard deviations; the generator has a fixed seed"]
