from vlib import *


def main(c):
    exe = build("event_schedule", ["event_schedule.cc"], ["assert"])
    c.design("EventScheduleMC", "EventScheduleMC.cfg" if not c.thorough else
             open(SPECS + "/EventScheduleMC.cfg").read().replace("MaxOps = 9", "MaxOps = 11"))
    gcfg = "CONSTANTS Times = {1, 2, 3}\nCap = 1000\nDepth = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % c.q(6, 8)
    scripts = c.gen("EventScheduleGen", gcfg)
    sp = os.path.join(scratch(), "script.txt")
    with open(sp, "w") as f:
        for s in scripts:
            f.write(" ".join("P" if o["op"] == "P" else "S%d" % o["t"] for o in s) + "\n")
    tr = c.harness(exe, [c.seed, c.q(120, 1500), sp], "trace.ndjson")
    c.validate("EventScheduleTrace", tr)
    c.assumptions += ["single-threaded use (the class is not synchronised)"]
