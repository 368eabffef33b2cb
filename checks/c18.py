from vlib import *


def main(c):
    exe = build("uuid", ["uuid.cc"], ["assert", "utils"], ldextra=["-ldl"], hooked=["utils"])
    c.design("UuidMC", "CONSTANTS Backgrounds = %s\nChars = {0, 32, 45, 47, 48, 57, 58, 65, 70, 71, 97, 102, 103}\nSPECIFICATION Spec\n"
             "CHECK_DEADLOCK FALSE\nINVARIANTS RoundTrip Distinct Canonical NullIff\n" % c.q("{0, 171}", "{0, 15, 171, 240, 255}"))
    scripts = c.gen("UuidGen", "CONSTANTS Depth = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % c.q(2, 3))
    sp = os.path.join(scratch(), "script.txt")
    with open(sp, "w") as f:
        for s in scripts:
            f.write(" ".join("%s %d %d" % tuple(o) for o in s) + "\n")
    tr = c.harness(exe, [c.seed, c.q(1600, 8000), sp], "trace.ndjson")
    c.validate("UuidTrace", tr)
    c.assumptions += ["uniqueness is observed over the identifiers generated in a run: one thread, eight threads, threads "
                      "interleaved at memory accesses, forked and separate processes"]
