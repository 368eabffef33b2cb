from vlib import *


def main(c):
    exe = build("safe_int", ["safe_int.cc"], ["assert", "math"])
    c.design("BigIntMC", "SPECIFICATION Spec\nINVARIANTS Agree Wide\nCHECK_DEADLOCK FALSE\n")
    c.design("SafeIntMC", "CONSTANT Bits = %d\nSPECIFICATION Spec\nINVARIANTS NoWrap Right\nCHECK_DEADLOCK FALSE\n" % c.q(7, 9))
    if c.thorough:
        c.prove("SafeIntInd", ("Inv", None, 0))
    tr = c.harness(exe, [c.seed, c.q(1000, 20000)], "trace.ndjson")
    c.validate("SafeIntTrace", tr)
