import concurrent.futures

from vlib import *
from c02 import SHIM, DIRS


def main(c):
    exe = build("auth", ["auth.cc"], ["assert", "utils", "auth"], extra=SHIM, protos=True, ldextra=["-ldl"])
    mc = "CONSTANTS MaxTok = %d\nMaxTime = %d\nIv = 2\nEx = 5\nAtomic = %s\nSPECIFICATION Spec\nCONSTRAINT Bound\n" \
         "INVARIANTS DiskIsPossible OnlyIssued NoStuckGet\nCHECK_DEADLOCK FALSE\n"
    c.design("TokenMC", mc % (c.q(2, 3), c.q(8, 14), "TRUE"))
    r = tlc("TokenMC", mc % (2, 8, "FALSE"))
    if "is violated" not in r.out:
        raise CheckError("the non-atomic variant of the token model must be refuted")
    if c.thorough:
        c.inductive("TokenInd", "Inv", ("Safe", "Inv", 1))
    lines = []
    for kinds, n, fl in c.q([('{"ok0", "deny"}', 3, 0), ('{"ok0"}', 3, 1), ('{"ok2", "late", "empty", "junk", "dead"}', 2, 0)],
                            [('{"ok0", "deny"}', 4, 0), ('{"ok0", "deny"}', 3, 2), ('{"ok0", "ok2", "late", "empty", "junk", "junkcode", "none", "dead"}', 3, 0)]):
        for s in c.gen("TokenGen", "CONSTANTS MaxOps = %d\nKinds = %s\nMaxFaults = %s\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (n, kinds, fl)):
            lines.append(" ".join(s) + "\n")
    shards = c.q(4, 8)

    def one(i):
        d = os.path.join(scratch(), "shard%d" % i)
        os.makedirs(d, exist_ok=True)
        sp = os.path.join(d, "script.txt")
        open(sp, "w").writelines(lines[i::shards])
        return c.harness(exe, [c.seed * 100 + i, c.q(400, 4000) // shards, sp, d], "trace%d.ndjson" % i, timeout=c.q(400, 1800))
    with concurrent.futures.ThreadPoolExecutor(shards) as ex:
        traces = list(ex.map(one, range(shards)))
    for tr in traces:
        c.validate("TokenTrace", tr)
    c.assumptions += ["process death (not power loss): what was written before the death is on disk",
                      "one process at a time uses the token file",
                      "time is virtual and only advances by sleeping and by request latency"]
