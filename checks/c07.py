from vlib import *
import c06


def main(c):
    exe = build("sample_interval", ["sample_interval.cc"], ["assert", "math", "time"])
    c.design("SampleIntervalMC", c06.MC % c.q(31, 80))
    tr = c.harness(exe, ["c07", c.seed, c.q(900, 12000)], "trace.ndjson")
    c.validate("RealSampleTrace", tr)
    c06.long_run(c, exe, "long7", "RealSampleTrace")
    c.assumptions += ["dyadic end points and steps of few bits exactly; full 53-bit doubles of widely different magnitudes with count and spacing up to 2^-49 of the magnitudes, both ends exact"]
