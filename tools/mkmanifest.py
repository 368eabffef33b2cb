import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("ViewCalls.tla model checked (TLC) at critical-section grain; TLC-generated schedules replayed into the real logger under a cooperative scheduler; every recorded call/request history validated against ViewCallsTrace by TLC",
         "All interleavings of the model up to the stated threads and calls, and replayed/recorded histories of the real code with a recording HTTP stand-in; scheduling points are mutex operations, HTTP calls and, in part of the runs, single memory accesses."),
 "C02": ("ViewSession.tla model checked; every generated sequence of server answers replayed into the real client over a recording HTTP stand-in; request histories validated by TLC",
         "Exhaustive over answer sequences up to the depth in the evidence, random beyond; the HTTP library is a stand-in (shim/cpr)."),
 "C03": ("Token.tla with crash steps model checked; generated poll/answer/refresh histories with a crash or a full disk at every file-system call, and with the token folder wiped in between, replayed into the real client; recorded behaviour validated by TLC",
         "Crash points enumerate every intercepted libc file call; virtual clock; HTTP stand-in."),
 "C04": ("Codec.tla register model checked; generated pack/wire/corrupt/unpack programs run on the real view packers; values compared in TLC", "Lattice poses and bit-exact scalars; malformed variants enumerated per message part."),
 "C05": ("EventSchedule.tla model checked; generated schedule/pop histories replayed; recorded traces validated by TLC", "Exhaustive short histories with several counter widths, random long ones."),
 "C06": ("SampleInterval.tla with exact big-integer arithmetic; boundary and random intervals recorded from the real code and validated by TLC", "Exact oracle in the specification (BigInt.tla); inputs enumerated on boundaries and sampled over 64 bits."),
 "C07": ("SampleInterval.tla (real part) model checked; recorded samples of the real code validated by TLC against exact rational positions", "Dyadic inputs are judged exactly, others within stated rounding."),
 "C08": ("SafeInt.tla: exact big-integer sums; recorded results of the real functions over boundary lattice and random 64-bit operands validated by TLC", "Full cross product of boundary operands, random beyond."),
 "C09": ("TimeConv.tla: exact splitting, rounding and truncation; recorded conversions of the real code validated by TLC", "Boundary lattice and random 64-bit durations, dyadic seconds."),
 "C10": ("RigidGroup.tla frame rules model checked; generated operation sequences over frames replayed; every result's frames validated by TLC", "All operand framings for every operation, random programs."),
 "C11": ("RigidGroup.tla/Subgroup.tla: group laws checked on the lattice group by TLC; recorded programs over the real SO3/SE3 validated by TLC on the lattice and on one-parameter subgroups; residuals off the lattice bounded", "Exact on 24-element rotations and integer translations and rational angles; elsewhere residuals against extended precision formulas."),
 "C12": ("RigidGroup.tla two-jets over integers: laws checked by TLC; recorded programs over the real two-jets and rigid-body states validated by TLC", "Exact integer arithmetic of the jet group on lattice poses."),
 "C13": ("DCurve.tla model checked; generated append/copy histories replayed into real curves; every query validated by TLC", "Lattice control points with exactly known arc length and screw walks."),
 "C14": ("TCurve.tla (quintic over integers) model checked; generated append histories replayed; queries validated by TLC", "Exact for one-axis motions; equivariance and derivative residuals elsewhere."),
 "C15": ("Trajectory.tla model checked; generated histories replayed into real trajectories; queries validated by TLC", "64-bit nanosecond stamps judged exactly; states as in C14."),
 "C16": ("Codec.tla register model checked; generated pack/wire/corrupt/unpack programs run on every real packer; values compared in TLC", "Lattice and arbitrary poses, bit-exact scalars."),
 "C17": ("StatusVal.tla register and call-stack machine model checked; generated programs of constructions, copies, moves and propagation run on the real types under AddressSanitizer and validated by TLC", "Value types int, string, move-only, reference."),
 "C18": ("Uuid.tla text bijection model checked; every byte position, every character at every position and generated edits recorded from the real code and validated by TLC; uniqueness over threads and processes", "Complete for single-character edits; uniqueness observed on finite batches over threads (also under memory-access scheduling), forks and processes."),
 "C19": ("Gauss.tla: exact classification of integer covariances and exact statistics model checked; generated draw/copy histories of the real Gaussians validated by TLC", "Integer covariances up to dimension 4; moments at five sigma."),
 "C20": ("ViewSystem.tla (ViewCalls composed with session, token, token file, processes and the service's record) model checked; TLC-generated lives replayed into the real View/ViewClient/DeviceCodeClient stack; recorded lives over several threads and processes validated by TLC", "Two threads, two processes and three tokens exhaustively in the model; generated answer/refusal sequences and sampled schedules, down to single memory accesses, on the real stack; HTTP stand-in."),
}
for i, what in {"C02": "the session protocol for histories of any length (ViewSessionInd)", "C03": "the token lifecycle with crashes for any number of processes (TokenInd)",
                "C06": "count and positions for all 64-bit intervals (SampleIntervalInd)", "C08": "the overflow guards for all 64-bit operands (SafeIntInd)",
                "C09": "splitting for all 64-bit durations (TimeConvInd)"}.items():
    T[i] = (T[i][0], T[i][1] + " Thorough also proves the specification with Apalache: " + what + ".")
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo. Checks build harnesses from /repo's working tree into /verif/.build (ignored by git)."}
for i in ids:
    t, n = T[i]
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s thorough" % i,
                        "technique": t, "level": "model_checking", "level_note": n})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
