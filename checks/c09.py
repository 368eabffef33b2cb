from vlib import *


def main(c):
    exe = build("time_conv", ["time_conv.cc"], ["assert"])
    c.design("BigIntMC", "SPECIFICATION Spec\nINVARIANTS Agree Wide\nCHECK_DEADLOCK FALSE\n")
    c.design("TimeConvMC", "CONSTANTS K = 7\nMax = %d\nSPECIFICATION Spec\nINVARIANT Unique\nCHECK_DEADLOCK FALSE\n" % c.q(40, 120))
    if c.thorough:
        c.prove("TimeConvInd", ("Inv", None, 0))
    tr = c.harness(exe, [c.seed, c.q(500, 8000)], "trace.ndjson")
    c.validate("TimeConvTrace", tr)
