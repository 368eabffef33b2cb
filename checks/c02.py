from vlib import *

SHIM = ["-I" + os.path.join(VERIF, "shim")]
DIRS = ALL_DIRS + VIS_DIRS
HOOKED = ["visualization", "visualization/client", "auth", "utils"]


def main(c):
    exe = build("view_client", ["view_client.cc"], DIRS, extra=SHIM, protos=True)
    c.design("ViewSessionMC", "CONSTANTS MaxCalls = %d\nMaxTok = %d\nSPECIFICATION Spec\n" % c.q((3, 6), (4, 8)) +
             "INVARIANTS OneSession AtMostOneCreated Numbers NeverBackToDiscarded AtMostTwo Truthful\n")
    if c.thorough:
        c.inductive("ViewSessionInd", "Inv", ("Safe", "Inv", 1))
    scripts = c.gen("ViewSessionGen", "CONSTANTS MaxCalls = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % c.q(3, 4))
    sp = os.path.join(scratch(), "script.txt")
    with open(sp, "w") as f:
        for s in scripts:
            f.write(" ".join(s) + "\n")
    tr = c.harness(exe, [c.seed, c.q(300, 3000), sp], "trace.ndjson")
    c.validate("ViewSessionTrace", tr)
    c.assumptions += ["the HTTP library is replaced by a stand-in that hands every request to the harness",
                      "the server's session id contains no double quotes or newlines other than as decoration"]
