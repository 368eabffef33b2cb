from vlib import *
from c02 import SHIM, DIRS, HOOKED


def main(c):
    exe = build("view", ["view.cc"], DIRS, extra=SHIM, protos=True, ldextra=["-ldl"], hooked=HOOKED)
    mc = "CONSTANTS NThreads = %d\nNCalls = %d\nMaxTok = %d\nMaxProc = %d\nMaxSess = %d\nMaxReq = %d\nSPECIFICATION Spec\n" \
         "INVARIANTS ExactlyOnce Truthful Ordered OneSessionEach SavedToken\nCHECK_DEADLOCK FALSE\n"
    for k in c.q([(2, 1, 2, 2, 2, 4), (1, 2, 3, 2, 2, 6)], [(2, 1, 3, 2, 2, 6), (1, 3, 3, 2, 2, 8), (2, 2, 3, 1, 1, 6)]):
        c.design("ViewSystemMC", mc % k)
    gcfg = "CONSTANTS Codes = {201, 401, 500}\nMaxAns = %d\nMaxDeny = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    sp = os.path.join(scratch(), "script.txt")
    with open(sp, "w") as f:
        for s in c.gen("ViewSystemGen", gcfg % c.q((3, 2), (5, 3))):
            f.write("%s | %s | %s | %d\n" % (" ".join(map(str, s["w"])), " ".join(map(str, s["a"])), " ".join(map(str, s["d"])), s["f"]))
    home = os.path.join(scratch(), "home")
    os.makedirs(home)
    tr = c.harness(exe, [c.seed, c.q(700, 10000), "system", sp], "trace.ndjson", env={"HOME": home}, timeout=c.q(400, 3000))
    c.validate("ViewSystemTrace", tr, timeout=c.q(600, 3000))
    c.assumptions += ["threads interleave at lock operations, HTTP requests one-time initialisation and, sampled, allocations and memory accesses of the view, client, auth and utility sources",
                      "processes die at HTTP requests; death between file-system calls is C03's subject",
                      "the HTTP library is replaced by a stand-in that hands every request to the harness"]
