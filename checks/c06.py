from vlib import *

MC = "CONSTANT Hi = %d\nSPECIFICATION Spec\nINVARIANTS CountMinimal Rounded InWord EndExact GapOk\nCHECK_DEADLOCK FALSE\n"


def long_run(c, exe, mode, module):
    """2^31 samples and more in one run.  Taking too long or too much memory for this machine is no violation."""
    try:
        tr = c.harness(exe, [mode, c.seed, c.q(900, 12000)], "long.ndjson", timeout=c.q(600, 1500))
    except Violation as v:
        if "did not finish" in v.what or "rc=-9" in v.what or "bad_alloc" in v.what:
            log("[long] no answer: " + v.what)
            c.extra["long_run"] = "no answer: " + v.what
            return
        raise
    c.validate(module, tr)


def main(c):
    exe = build("sample_interval", ["sample_interval.cc"], ["assert", "math", "time"])
    c.design("BigIntMC", "SPECIFICATION Spec\nINVARIANTS Agree Wide\nCHECK_DEADLOCK FALSE\n")
    c.design("SampleIntervalMC", MC % c.q(31, 80))
    if c.thorough:
        c.inductive("SampleIntervalInd", "Walk", *[(i, "Walk", 0) for i in ("CountMinimal", "InWord", "Rounded", "EndExact")])
    tr = c.harness(exe, ["c06", c.seed, c.q(900, 12000)], "trace.ndjson")
    c.validate("SampleIntervalTrace", tr)
    long_run(c, exe, "long6", "SampleIntervalTrace")
