from vlib import *

DIRS = ["assert", "utils"]


def main(c):
    # lifetime errors of propagated temporaries only show under the address sanitizer
    san = ["-fsanitize=address", "-fsanitize-address-use-after-scope"]
    exe = build("status_val", ["status_val.cc"], DIRS, extra=san, ldextra=["-fsanitize=address"])
    c.design("StatusValMC", "CONSTANTS Depth = %d\nLevels = {1, 2, 3}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
             "INVARIANTS Faithful NeverOkayWithoutValue ClosedForm\n" % c.q(3, 5))
    scripts = c.gen("StatusValGen", "CONSTANTS Depth = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % c.q(3, 4))
    sp = os.path.join(scratch(), "script.txt")
    with open(sp, "w") as f:
        for s in scripts:
            f.write(" ".join(s) + "\n")
    tr = c.harness(exe, [c.seed, c.q(600, 6000), sp], "trace.ndjson", env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0"})
    c.validate("StatusValTrace", tr)
    c.assumptions += ["value types int, std::string, a move-only type and int&; errors are recognised by their message "
                      "text, file and line appearing in the reported text, not by its layout",
                      "a moved-from register is not read again before it is refilled"]
