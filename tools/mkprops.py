import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":mech,"where":files[0]}]}
    if state:a["state"]=[{"name":s.strip(),"meaning":s.strip(),"where":files[0]} for s in state.replace(";",",").split(",")]
    if observe:a["observe_at"]=[observe]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

add("C01","Viewed objects are delivered exactly once, with truthful call outcomes",
"However many threads view objects at the same time, every object whose view call returns normally has been accepted by the server in exactly one update, and a view call fails exactly when the update that carried its object was not accepted; view calls never send an update without an object, no object is sent twice, and updates never overlap. Each delivered object carries its own fresh non-null identity, the value, the name given by the caller (none if none was given) and the source location of the call (an unknown-file marker and line 0 when streamed directly).",
["schedules","fault_sequences","inputs"],"every interleaving of concurrent view calls at critical-section granularity, every pattern of server accept/reject answers, every payload kind and way of naming",
"The repository's multi-thread test samples whatever schedule the OS picks against an always-accepting mock, and is not even built where no HTTP client library is present; a lost object after a concurrent failure needs one particular interleaving together with a fault.",
["resim/visualization/view.cc","resim/visualization/view.hh"],
"Viewed objects are buffered under a mutex and flushed to the client; sends happen inside the critical section and failures are turned into exceptions.",
"buffered primitives; client session","HTTP requests leaving the process; return or exception of each view call")

add("C02","View session protocol: one session, increasing update numbers, one retry",
"A view client creates one session before its first update and reuses it for all later ones; every update attempt gets the next update number (0,1,2,…; never reused or skipped among the attempts for which a token was available, even after a failed attempt) under that session with the caller's packed update as body and the current bearer token. An unauthorised answer discards the token and repeats exactly that request once with a newly obtained token; the call reports success if and only if the last answer of each step was 'created', and a failed session creation leaves the client able to try again on the next call without consuming an update number.",
["fault_sequences","histories","inputs"],"every sequence of server answers (created, unauthorised, other errors, connection failure) over every history of update calls and session-id spellings",
"Tests script two or three fixed answer sequences against a local server; retry/number/session interactions over arbitrary answer histories are unbounded.",
["resim/visualization/client/view_client.cc"],"Session id and update counter kept across calls; 401 triggers token refresh and one repeat of the same request.",
"session id, update counter, auth token","HTTP requests and Status of each call")

add("C03","Access token lifecycle: cached, crash-safely persisted, refreshed, polled",
"A token is requested from the authorisation server only when neither the process nor the token file has one; once obtained it is returned unchanged on every request and saved so that a later process returns the same token without contacting the server, until it is discarded by a refresh, after which the next request obtains a new one. Whatever point the process dies at, and when the disk is full while saving, a later process either returns a complete token that the server issued or obtains a new one, never an empty or partial token. While obtaining one, polling waits the interval the server asked for between polls, continues on pending errors, stops with an error when the code's lifetime has passed, and never accepts an empty token or a failed device-code request.",
["crash_points","fault_sequences","histories"],"every file-system call as crash point, every sequence of poll answers/intervals/lifetimes, every history of request, refresh and restart",
"Tests never kill the process between truncating and writing the token file, use real time with a zero or one second lifetime, and check three fixed histories.",
["resim/auth/device_code_client.cc"],"In-memory token, token file, device-code flow with polling loop bounded by the lifetime.",
"in-memory token, token file, polling deadline","HTTP requests, sleeps, file-system calls, returned token")

add("C04","View updates survive the wire unchanged",
"Packing a view update and unpacking it yields the same primitives in the same order: same identity, same kind of payload with an equal value (including frames, control points, start time), same non-empty name or absence of a name, same file and line. Packing replaces any previous content of the message, a message whose primitive carries no payload or a malformed part is rejected, and a null destination is rejected.",
["inputs","histories"],"every sequence of primitives over all seven payload kinds, names, lines, framed and unframed values; every reuse of a previously filled message",
"Tests round-trip one primitive per payload kind into an empty message; mixed orders, reuse of messages and malformed parts are not sampled.",
["resim/visualization/proto/view_primitive_to_proto.cc","resim/visualization/proto/view_update_to_proto.cc"],
"Field-by-field packing into a oneof message.",None,"unpacked value compared with the original, message contents")

add("C05","Event schedule pops events in time order, first-in-first-out among equal times",
"At every moment the top of an event schedule is, among the scheduled and not yet popped events, one with the earliest time and of those the one scheduled first, with exactly the time and payload it was scheduled with. Popping removes exactly that event and the size is always the number scheduled minus the number popped. Scheduling is refused, leaving the schedule unchanged, exactly when the lifetime number of scheduled events has reached the maximum of the counter type.",
["histories","inputs"],"every interleaving of schedule and pop operations (and of copying or moving the schedule) with arbitrary (also negative, equal, extreme) times and counter widths",
"The tests schedule a batch and then drain it; interleaved pops with ties, re-use after draining and counter exhaustion after pops are history dependent.",
["resim/time/event_schedule.hh"],"Priority queue keyed by time then insertion count with an exhaustion assertion.",
"queue content, insertion counter","top/size/pop/exception at the public interface")

add("C06","Integer-time interval sampling covers the interval, never too coarsely",
"For timestamps, the reported number of samples is the fewest n≥1 such that n-1 steps of the maximum step cover the interval (one sample for an empty interval), and sampling calls back exactly that many times, starting exactly at the start and ending exactly at the end, in the direction of travel. The i-th sample is the exact evenly spaced position rounded to the nearest nanosecond (ties away from the start), hence samples are monotone, no gap exceeds the maximum step, and swapping the ends mirrors the sample spacing. Non-positive maximum steps (unless the interval is empty) and intervals whose length or sample count is not representable are rejected without any callback, never answered wrongly.",
["inputs"],"all pairs of 64-bit nanosecond timestamps and all 64-bit maximum steps",
"Tests sample a few dozen random intervals with tolerances and only forward direction; rounding in reverse, degenerate intervals and extreme magnitudes are unsampled.",
["resim/time/sample_interval.cc"],"Mixed-number accumulation with overflow-checked arithmetic.",None,"return values and callback sequence")

add("C07","Real-time interval sampling is complete, even and minimal",
"For real-valued times the number of samples is the fewest n such that n-1 steps of the maximum step cover the interval, also when n exceeds 32 bits, and sampling visits that many evenly spaced times, the first exactly the start and the last exactly the end, in order and in the direction of travel; an empty interval gives exactly one sample. A non-positive or NaN maximum step is rejected before any callback whenever the interval is not empty.",
["inputs"],"all finite start and end times and maximum steps (decided on exactly representable dyadic values)",
"Tests use random intervals with a handful of samples and tolerances that hide an off-by-one at exact multiples and integer narrowing.",
["resim/time/sample_interval.cc"],"Ceiling division in floating point and linear interpolation.",None,"return values and callback sequence")

add("C08","Overflow-checked integer arithmetic is exact or refuses",
"Checked sum, difference and absolute value of 64-bit integers return the mathematically exact result whenever that result is representable, and raise an error otherwise; they never wrap, and the error states overflow when the exact result is too large and underflow when it is too small.",
["inputs"],"all pairs of 64-bit signed integers",
"Tests probe a few random and boundary pairs out of 2^128.",
["resim/math/safe_integer_utils.cc"],"Range tests before the operation.",None,"return value or exception")

add("C09","Time conversions are exact and inverse to each other",
"Splitting any duration into whole seconds and nanoseconds and joining again gives back the same duration, with the nanosecond part smaller than one second in magnitude and of the same sign as the duration (whole seconds truncated toward zero). Converting a duration to seconds gives the correctly rounded real value (up to 2^53 ns; within two units in the last place beyond), and converting seconds to a duration returns the whole-nanosecond value within one nanosecond (truncated toward zero for exactly representable values); both conversions are monotone and odd.",
["inputs"],"all 64-bit nanosecond durations and all representable second values",
"Tests use random draws with epsilon comparisons.",
["resim/time/timestamp.hh"],"Integer division/remainder and chrono casts.",None,"return values")

add("C10","Frames are checked on every operation and propagated by the group rules",
"A transform always has both frames or neither, and half-framed construction or null frame assignment is rejected leaving the value unchanged. Composition, framed-vector addition, rotation of framed vectors, re-framed interpolation, distance, two-jet and rigid-body-state composition succeed only if the frames that must meet are equal (an unframed operand makes composition results unframed, while framed vectors and re-framing require framed transforms), and otherwise raise an error; results carry exactly the frames given by the rules (inverse swaps, interpolation keeps, composition takes outer frames, a rotation inside a rigid transform never carries its own). Approximate equality includes the frames, and newly made frames are never equal to existing ones or null.",
["programs","histories"],"every finite program of constructions, assignments and operations over transforms, vectors and states with any mix of frames",
"Unit tests try a few two-step compositions; programs mixing framed and unframed values through several operations are unbounded.",
["resim/transforms/liegroup.hh","resim/transforms/so3.cc","resim/transforms/se3.cc","resim/transforms/framed_vector.hh","resim/transforms/frame.hh","resim/curves/two_jet.cc","resim/actor/state/rigid_body_state.cc"],
"Frame pair stored in the group base class; assertions at each operation.","frames of each value","frames, verify functions and exceptions at the public interface")

add("C11","Rotations and rigid transforms obey the group laws and their exp/log/adjoint",
"Composition is associative with identity and inverses, its action on points agrees with composing, and all constructors (matrix, quaternion, angle-axis, translation, tangent) denote the same element. Exponential of log returns the element, log returns the principal tangent (rotation angle at most π), scaling a tangent follows the one-parameter subgroup, interpolation walks that subgroup with fraction 0 giving identity and 1 the element, and adjoints satisfy conjugation and bracket identities — for every magnitude including tiny and near-π rotations.",
["inputs","programs"],"every finite word of group operations over lattice elements exactly, and over one-parameter subgroup elements of any angle within floating tolerance",
"Tests draw random elements with angles of order one; the small-angle, near-π and integer-exact regimes and long words are not settled by sampling a few draws.",
["resim/transforms/so3.cc","resim/transforms/se3.cc","resim/transforms/liegroup_exp_diff.cc","resim/transforms/cross_matrix.cc"],
"Matrix/translation representation with series near zero.",None,"matrices, translations and tangents read from results")

add("C12","Two-jets and rigid-body states form a group, consistent left and right",
"Two-jets compose and invert as the derivatives of composed and inverted motions: identity and inverse laws, associativity, and left and right representations convert into each other by inverting the pose and negating derivatives, consistently with composition order. A rigid-body state returns exactly the pose, linear and angular velocity and acceleration it was given, each setter changes only its own part, and composing with or removing another state is the corresponding two-jet operation.",
["programs","inputs"],"every finite program of compositions, inversions, conversions and setters over lattice poses and integer derivatives (exact), two-jets over both groups",
"Tests compare against finite differences on random draws with loose tolerances and do not check setter isolation over histories.",
["resim/curves/two_jet.cc","resim/actor/state/rigid_body_state.cc"],"Adjoint-based derivative transport; tangent stored angular first.",None,"getters of results")

add("C13","Distance curves: control points reproduced, arc length additive, range enforced",
"A distance curve's length is the sum of the arc lengths between consecutive control points; querying the cumulative length of a control point returns that control point, querying between walks the connecting screw motion proportionally to distance, and queries before zero, beyond the length, not a number, or on a curve without segments are refused. Appending never alters earlier control points or queries, copies are independent, zero-length segments never produce invalid poses, and control points with frames other than the curve's are refused and not added, leaving everything already in the curve unchanged.",
["histories","inputs"],"every sequence of appends, copies and queries over lattice control points including repeated points",
"Tests use a few smooth curves, no repeated points, no interleaving of appends, copies and queries.",
["resim/curves/d_curve.cc"],"Cumulative arc length per control point and a segment search.","control points and segments","point_at, curve_length, control_pts, exceptions")

add("C14","Time curves interpolate their control states exactly and are C2 across segments",
"Querying a time curve at a control time returns that control point's pose and first and second derivatives, between control times pose and derivatives follow the unique quintic with those end values (exactly for motions in one direction or about one axis), so value and both derivatives are continuous across segments and equivariant under change of reference pose and time shift. Control times must strictly increase and frames match, else the append is refused and the curve unchanged; queries outside the control times, not a number, or on fewer than two control points are refused.",
["histories","inputs"],"every sequence of appends and queries over rational times and lattice control states, for both rotation and rigid-transform curves",
"Tests check finite differences at random points with loose tolerance on one or two curves.",
["resim/curves/t_curve.cc","resim/curves/t_curve_segment.cc","resim/curves/quintic_poly_coeffs.cc"],"Normalised quintic Hermite segments with derivative rescaling and a segment search.","control points and segments","point_at, start/end time, exceptions")

add("C15","Trajectories return the state they were given at the time they were given",
"A trajectory starts at its first control's timestamp, ends at its last one (exactly to the nanosecond for spans up to twelve days), and querying at a control timestamp, or at the same offset from the start, returns that control's pose and body velocity and acceleration; queries in between agree with the underlying time curve, and queries outside are refused. Control timestamps must strictly increase and both frames match, otherwise the append is refused and the trajectory is unchanged; asking an empty trajectory for its end, duration, frames or a state is refused.",
["histories","inputs"],"every sequence of appends and queries over nanosecond timestamps (any epoch, including negative and large) and states",
"Tests use one fixed set of second-scale timestamps near a single epoch and never query empty trajectories for their end.",
["resim/actor/state/trajectory.cc"],"TCurve on seconds since start plus a start timestamp.","curve and start time","public getters and exceptions")

add("C16","Transforms, curves, trajectories and matrices survive serialisation unchanged",
"Packing any transform, frame, framed vector, two-jet, distance or time curve, trajectory, identifier or matrix and unpacking yields an equal value with the same frames, control points, times and element order, also through the wire encoding. Packing replaces any previous content of the destination, a null destination is refused, and messages with a wrong number of elements, half a frame pair or a malformed identifier are refused.",
["inputs","histories"],"every value built from lattice poses, integer derivatives, frames and times; every previous content of the destination message; every malformed variant",
"Tests round-trip one random value per type into an empty message.",
["resim/transforms/proto/liegroup_to_proto.cc","resim/transforms/proto/framed_vector_3_to_proto.cc","resim/curves/proto/two_jet_to_proto.cc","resim/curves/proto/d_curve_to_proto.cc","resim/curves/proto/t_curve_to_proto.cc","resim/actor/state/proto/trajectory_to_proto.cc","resim/math/proto/matrix_to_proto.hh","resim/utils/proto/uuid_to_proto.cc"],
"Log coordinates for transforms, column-major flat matrices, string identifiers.",None,"unpacked value and message contents")

add("C17","Statuses, status values and optional references never hide a failure",
"A status is good or carries a message with file and line; a status value holds either a value or a bad status, never both and never a good status without value; reading a value from a bad one, dereferencing an empty reference or a false assertion raises an error naming the failing condition, location and message, and a true assertion never does. The propagation helpers return early exactly on failure with that same failure, otherwise yield the value unchanged, evaluating their argument exactly once; copies, moves and reassignments preserve this.",
["programs","histories"],"every finite program of constructions, copies, moves, reassignments and reads",
"Tests try each accessor once on freshly built objects; sequences of copies, moves and propagation through nested calls are not enumerated.",
["resim/utils/status.hh","resim/utils/status.cc","resim/utils/status_value.hh","resim/utils/nullable_reference.hh","resim/utils/match.hh","resim/utils/inout.hh","resim/assert/assert.hh","resim/assert/assert.cc"],
"Variants, macros with statement expressions, exception type.","variant held","accessors, exceptions and their text")

add("C18","Identifiers parse, print, compare and hash consistently and are never repeated",
"Printing an identifier gives the canonical 36-character lower-case form, parsing that form (in either case) gives the same identifier, and any other text is refused. Equality, inequality, hashing and nullness agree with the sixteen bytes, the default identifier is null, and newly generated identifiers are non-null and pairwise distinct, also when generated concurrently or by different processes.",
["inputs","schedules"],"all 16-byte values (each byte and nibble position), all single-character mutations of valid text, all generation counts and threads",
"Tests use one or two literals.",
["resim/utils/uuid.cc","resim/utils/uuid.hh"],"libuuid parse/unparse on a byte array.",None,"strings, bytes, comparisons")

add("C19","Gaussians accept only valid parameters and sample reproducibly; exact statistics",
"A Gaussian is constructed if and only if the covariance is square of the mean's dimension, symmetric and positive semi-definite (up to rounding relative to its size), and then reports the given mean, covariance and dimension with non-negative eigenvalues reconstructing the covariance. Samples have one row per requested draw, lie in mean plus the span of the covariance (constant where variance is zero), are an affine image of one fixed pseudo-random stream so equal histories on equal objects give equal samples and drawing continues the stream. Sample mean and covariance equal their exact unbiased formulas and a covariance of fewer than two samples is refused.",
["inputs","histories"],"all small integer matrices as covariance (classified exactly), all small integer sample matrices, every split of a number of draws into calls",
"Tests accept statistical tolerances of several percent on a few random covariances.",
["resim/math/multivariate_gaussian.cc","resim/math/multivariate_gaussian.hh","resim/math/sample_statistics.hh"],"Eigen decomposition and a fixed seed generator.","generator state","constructor outcome, getters, samples")
add("C20","End to end, the view service's record matches what callers were told",
"Across threads, server failures, expired or refused tokens and process restarts, the view service ends up with exactly the objects whose view calls returned normally, each recorded once: within one process all updates go to one session under increasing numbers, every request carries the token that is current (an issued one, never the one just called unauthorised), and a later process goes on with the token left on file without contacting the authorisation server, or obtains a new one exactly if none is left.",
["schedules","histories","crash_points","fault_sequences"],"every interleaving of view calls and flushes by several threads, every sequence of service answers and token refusals, every sequence of processes ending or dying at a request",
"Tests exercise one layer at a time against mocks; no test composes view calls, session, token and token file, or runs a second process.",
["resim/visualization/view.cc","resim/visualization/client/view_client.cc","resim/auth/device_code_client.cc"],"Logger with a mutex over a client with session and counter over a token client with a file.","session id, update counter, token, token file","HTTP requests and answers, call outcomes, token file")
with open('/verif/properties.jsonl','w') as f:
    for p in P: 
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
