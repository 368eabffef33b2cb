from vlib import *
from c02 import SHIM, DIRS, HOOKED


def main(c):
    exe = build("view", ["view.cc"], DIRS, extra=SHIM, protos=True, ldextra=["-ldl"], hooked=HOOKED)
    mc = "CONSTANTS NThreads = %d\nNCalls = %d\nJoint = %s\nSPECIFICATION Spec\nINVARIANTS Conforms NothingLeft Exclusive\n"
    c.design("ViewCallsMC", mc % (c.q(3, 4), c.q(2, 1), "TRUE"))
    if c.thorough:
        c.design("ViewCallsMC", mc % (3, 2, "TRUE"))
    if "is violated" not in tlc("ViewCallsMC", mc % (2, 1, "FALSE")).out:
        raise CheckError("the variant with two critical sections must be refuted")
    gcfg = "CONSTANTS Works <- %s\nCodes = {201, 401, 500}\nMaxAns = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    sets = c.q([("W11", 4), ("WSmall", 2)], [("W11", 5), ("WBig", 3), ("W1111", 2)])
    sp = os.path.join(scratch(), "script.txt")
    with open(sp, "w") as f:
        for works, n in sets:
            for s in c.gen("ViewCallsGen", gcfg % (works, n)):
                f.write("%s | %s\n" % (" ".join(map(str, s["w"])), " ".join(map(str, s["a"]))))
    home = os.path.join(scratch(), "home")
    os.makedirs(home)
    tr = c.harness(exe, [c.seed, c.q(600, 4000), c.q(60, 500), sp], "trace.ndjson", env={"HOME": home}, timeout=c.q(400, 3000))
    c.validate("ViewCallsTrace", tr, timeout=c.q(600, 3000))
    c.assumptions += ["threads interleave at lock operations, HTTP requests one-time initialisation and, sampled, allocations and memory accesses of the view, client, auth and utility sources",
                      "the HTTP library is replaced by a stand-in that hands every request to the harness"]
