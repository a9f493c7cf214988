#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long strings stay readable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, symbols):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=', '.join(files)) for n in symbols], hook_needed=None)))

p("C01", "Event schedule: time order, FIFO ties, nothing lost or invented",
  "Whatever the interleaving of scheduling and popping, the event on top is always the earliest one still scheduled and, among equal times, the one scheduled first; its time and payload are exactly those it was scheduled with, and the reported size is always the number scheduled minus the number popped. "
  "Copying or moving a schedule preserves this. "
  "A schedule accepts exactly as many events over its lifetime as its counter type allows and then rejects further ones, leaving what is already queued untouched.",
  ["histories"], "every sequence of schedule / peek / pop / copy operations, any timestamps (including ties, nanosecond neighbours, pre-epoch and extreme ones), any counter width",
  "The unit test shuffles one batch of events and pops it once; interleavings of pushes and pops, ties created after pops, and behaviour around exhaustion with a non-empty queue are never visited.",
  ["resim/time/event_schedule.hh"], ["EventSchedule"])

p("C02", "Integer-time sampling: endpoints, minimum count, nearest-nanosecond positions",
  "Sampling a timestamp interval visits the start first and the end last, uses the smallest number of evenly spaced samples (exactly the reported sample count) whose spacing does not exceed the given maximum step, and places each sample on the nanosecond nearest to its ideal rational position, monotonically from start to end. "
  "This holds in both directions and for any span that fits in 64 bits; an interval of zero length is visited exactly once. "
  "A non-positive step, or a span that does not fit, is rejected rather than silently mis-sampled.",
  ["inputs"], "all start/end timestamps and all positive maximum steps, forwards and backwards, including spans and steps near the 64-bit limits",
  "The tests use a handful of hand-picked ascending intervals; descending intervals, remainders of every residue class and near-limit spans are not covered.",
  ["resim/time/sample_interval.cc", "resim/time/sample_interval.hh"], ["sample_interval", "num_samples"])

p("C03", "Floating-time sampling: endpoints, minimum count, even spacing",
  "Sampling an interval of seconds starts exactly at the start and ends exactly at the end, with evenly spaced samples whose number is the smallest that keeps the spacing within the given maximum step and equals the reported sample count; a zero-length interval is visited once. "
  "This holds in both directions and for counts beyond 32 bits; a step that is not strictly positive and a request whose sample count cannot be represented are rejected.",
  ["inputs"], "all finite start/end/step combinations in either direction",
  "Tests cover a few ascending intervals; exact multiples, near multiples, descending intervals and large counts are not explored.",
  ["resim/time/sample_interval.cc"], ["sample_interval", "num_samples"])

p("C04", "Time conversions are lossless where representable",
  "Converting a duration to integer seconds plus nanoseconds and back is the identity for every duration, the nanosecond part stays below one second in magnitude and never disagrees in sign with the seconds. "
  "Converting to floating seconds and back returns exactly the same duration whenever its magnitude is below about twenty days, and the floating value is always the closest double to the true one within rounding.",
  ["inputs"], "all 64-bit nanosecond durations, negative ones included",
  "Tests check one or two positive constants and random full-range integers for the integer form only.",
  ["resim/time/timestamp.hh"], ["as_seconds", "as_duration", "to_seconds_and_nanos", "from_seconds_and_nanos"])

p("C05", "Checked 64-bit arithmetic: exact or rejected",
  "The checked sum, difference and absolute value return the exact mathematical result whenever it fits in a signed 64-bit integer and otherwise fail with an error; they never wrap, never fail when the result fits, and never execute undefined behaviour.",
  ["inputs"], "all pairs of 64-bit integers",
  "Tests sample a few boundary pairs plus random pairs, which almost never fall on a boundary.",
  ["resim/math/safe_integer_utils.cc"], ["safe_sum", "safe_difference", "safe_abs"])

p("C06", "Frame discipline: mismatches always rejected, outputs correctly framed",
  "Whenever two framed transforms (or motion states) are composed the inner frames must match or the operation fails; a successful composition goes from the right operand's source frame into the left operand's target frame, inversion swaps the frames, interpolation keeps them (or takes the requested new source frame), and rotating or adding a framed vector fails unless its frame matches and yields a vector in the right frame. "
  "No operation ever yields a transform with exactly one frame set: attempts to build one are rejected. "
  "Composing with an unframed operand yields an unframed result, and frame queries and comparisons always tell the truth.",
  ["programs", "histories"], "every program of transform operations over any assignment of frames (matching, mismatching, null, one-sided)",
  "Tests try a few chosen frame combinations per operation and never chains of operations in which frames propagate.",
  ["resim/transforms/so3.cc", "resim/transforms/se3.cc", "resim/transforms/liegroup.hh", "resim/transforms/framed_vector.hh", "resim/curves/two_jet.cc"], ["SO3::operator*", "SE3::operator*", "LieGroup", "FramedVector"])

p("C07", "Rigid transforms form a group acting on points, vectors and tangent space",
  "Composition is associative, identity is neutral, the inverse cancels on both sides, and applying a composed transform to a point equals applying the parts in turn; rotation-only application ignores translation and preserves lengths and handedness. "
  "The adjoint is a homomorphism that agrees with conjugation, its matrix and product forms agree, and the algebra bracket agrees with it. "
  "Distances between two poses equal the length of the relative translation, and approximate comparison is true for equal transforms and false for genuinely different ones.",
  ["programs", "inputs"], "all products of transforms, checked exhaustively on finite groups of rotations combined with a lattice of translations",
  "Tests check the laws on a few dozen pseudo-random transforms, leaving special orientations (half turns, axis permutations) and long products out.",
  ["resim/transforms/so3.cc", "resim/transforms/se3.cc", "resim/transforms/cross_matrix.cc"], ["SO3", "SE3", "se3_distance", "se3_inverse_distance"])

p("C08", "Exp, log, interpolation and arc length agree for every rotation angle",
  "The exponential of any tangent vector is the rigid motion obtained by integrating it as a constant velocity for unit time, and the exponential of the logarithm of a transform reproduces that transform, for all rotation angles from exactly zero through vanishingly small and half-turn angles to beyond full turns. "
  "The logarithm of the exponential returns the tangent vector itself whenever its rotation is less than a half turn; the derivative of the exponential matches its true differential. "
  "Interpolation follows that constant-velocity path: fraction zero gives identity, one gives the transform, fractions add up, also outside the unit interval, and the arc length is the length of the translation velocity.",
  ["inputs"], "all tangent vectors over all angle regimes, axes and translation scales",
  "Random test vectors have angles of order one; the small-angle and near-half-turn branches, and agreement across their boundaries, are hardly hit.",
  ["resim/transforms/so3.cc", "resim/transforms/se3.cc", "resim/transforms/liegroup_exp_diff.cc"], ["SE3::exp", "SE3::log", "SO3::exp", "SO3::log", "derivative_of_exp_so3", "interp", "arc_length"])

p("C09", "Motion jets compose and invert as true time derivatives",
  "Composing, inverting and converting between left and right form pose-velocity-acceleration jets gives exactly the pose, velocity and acceleration of the composed, inverted or converted motions, for any program of such operations. "
  "Left and right forms of the same motion are interchangeable: converting, operating and converting back agrees with operating directly, and conversion twice is the identity.",
  ["programs", "inputs"], "all programs of compose / invert / convert over jets with arbitrary poses, velocities and accelerations, for rotations and rigid transforms",
  "Tests check inverse and composition on random jets singly, and verify second derivatives only against the same formulas.",
  ["resim/curves/two_jet.cc", "resim/curves/two_jet.hh"], ["TwoJetL", "TwoJetR"])

p("C10", "Time curves pass through their control points, smoothly, and reject bad input",
  "After any history of appends (single, listed or at construction), a time-parameterised curve reproduces each control point's pose, velocity and acceleration at its time, its reported velocity and acceleration are the true derivatives of its reported pose everywhere, and pose, velocity and acceleration are continuous across control points. "
  "Queries outside the covered time range (or not a number), or on a curve with fewer than two points, and appends with non-increasing time or different frames are rejected and leave the curve unchanged; reported times, frames, control points and segments always match what was appended. "
  "Copies evolve independently.",
  ["histories", "inputs"], "every history of accepted and rejected appends, copies and queries, for rotation and rigid-transform curves",
  "Tests build one curve shape from a fixed list of points; rejected operations in mid-history, uneven time spacing, and queries exactly at and next to joints are not combined.",
  ["resim/curves/t_curve.cc", "resim/curves/t_curve_segment.cc", "resim/curves/quintic_poly_coeffs.cc"], ["TCurve", "TCurveSegment", "QuinticPolyCoeffs"])

p("C11", "Distance curves: arc-length parameterisation over any append history",
  "After any history of appends, a distance-parameterised curve passes through its control points at the cumulative geodesic arc lengths it reports, its total length is the sum of the segment lengths, and between control points it follows the geodesic with distance travelled proportional to the parameter. "
  "Queries below zero, beyond the length or not a number, or on a curve with fewer than two points, and appends to a framed curve of points with other frames, are rejected and leave the curve unchanged; copies evolve independently.",
  ["histories", "inputs"], "every history of accepted and rejected appends, copies and queries",
  "Tests build a few fixed curves and query them at a few arc lengths; exact joints, rejected appends followed by more appends, and copies are not covered.",
  ["resim/curves/d_curve.cc", "resim/curves/d_curve.hh"], ["DCurve"])

p("C12", "Trajectories and rigid body states: exact states at exact timestamps",
  "A trajectory built by any history of appends reports the first control's timestamp as its start, the last control's as its end and their difference as its duration, once it has two controls, returns each control's pose, velocity and acceleration (in body coordinates) when queried at its timestamp or at the corresponding time from start, and can be queried over exactly that closed range; anything else, including end, duration, frame and state queries of an empty trajectory and appends out of order or of other frames, is rejected without changing it. "
  "A rigid body state returns each of its parts exactly as set, independent of the order of setting; composing states and expressing one relative to another gives the relative pose, velocity and acceleration, and these two operations are inverse to each other.",
  ["histories", "inputs"], "every history of appends and setter calls, with realistic absolute timestamps and any nanosecond spacing",
  "Tests use whole-second control times near one start time and check the range ends only there; nanosecond-odd end times and empty trajectories are not exercised.",
  ["resim/actor/state/trajectory.cc", "resim/actor/state/rigid_body_state.cc"], ["Trajectory", "RigidBodyState"])

p("C13", "Serialization round-trips every object and fully overwrites its target",
  "Packing any identifier, frame, framed vector, rotation, rigid transform, motion jet, curve, trajectory, view primitive or view update into a message, sending it over the wire and unpacking it yields an equal object: same geometry, derivatives, times, frames, identifiers, names (an empty name counting as none), file and line, kind and order. "
  "Packing into a message that already holds anything gives exactly what packing into a fresh one gives. "
  "Packing into a null target is rejected, and the object packed is not modified.",
  ["inputs", "histories"], "all objects of every serialisable type (any rotation angle, framed or not, empty or long curves, any timestamp) and all prior contents of the target message",
  "Tests round-trip a few random objects per type into fresh messages; special angles, empty objects, pre-epoch times and reused messages are not combined.",
  ["resim/transforms/proto", "resim/curves/proto", "resim/actor/state/proto", "resim/visualization/proto", "resim/utils/proto", "resim/math/proto/matrix_to_proto.hh"], ["pack", "unpack", "pack_matrix", "unpack_matrix"])

p("C14", "Malformed messages are rejected, never turned into wrong objects",
  "Unpacking a message with a missing or unparsable identifier, a vector of the wrong length, exactly one frame set, control points out of time order or with frames other than the curve's, a start time that cannot be represented, or no payload, fails with an error and never crashes, reads out of bounds or returns an object. "
  "For view primitives a missing payload is reported as an error result by the checked form and as a failure by the plain form.",
  ["inputs"], "all single and paired structural mutations (field removed, resized, swapped, corrupted) at every position of messages of every type",
  "Tests try at most one malformed instance per type.",
  ["resim/transforms/proto", "resim/curves/proto", "resim/visualization/proto", "resim/utils/uuid.cc", "resim/math/proto/matrix_to_proto.hh"], ["unpack", "UUID"])

p("C15", "Concurrent viewing: every object delivered exactly once, in order, race-free",
  "When any number of threads view objects concurrently, every viewed object is delivered to the server exactly once, intact and with its own name and unique identifier, no later than when its view call returns, and objects viewed by one thread arrive in the order in which that thread viewed them. "
  "If the server refuses some updates, exactly the view calls whose objects were refused report an error. "
  "No interleaving deadlocks, loses or duplicates an object, sends two updates at the same time, reuses an update number, opens more than one session, or contains a data race.",
  ["schedules"], "all thread interleavings (at every synchronisation operation, with every data access checked for races) of concurrent view, named view and flush calls",
  "The multi-threaded unit test needs a library that is not even present in this build, and where it runs it sees a handful of schedules of the many possible.",
  ["resim/visualization/view.cc", "resim/visualization/view.hh", "resim/visualization/client/view_client.cc"], ["View", "ViewObject", "ViewClient"])

p("C16", "View client protocol: one session, consecutive updates, one re-authentication",
  "Over any sequence of server answers the view client opens a session only while it has none, posts each update once under the session obtained and a fresh consecutive update number (counting from zero) with the current bearer token and the serialised update as an octet-stream body, and on an unauthorised answer refreshes its credentials and repeats that same request exactly once. "
  "Any answer other than created (or a second unauthorised one) is reported as a failure to the caller, and an update is reported as sent only if the server confirmed it. "
  "After a failure the next update proceeds normally, reusing an existing session. The link to the visualisation that a confirmation carries is shown in the log.",
  ["fault_sequences", "histories"], "all sequences of server answers (created, unauthorised, forbidden, not found, server error, connection failure, malformed bodies) to sequences of updates",
  "Tests script a few answers for a single update; they are not even built here.",
  ["resim/visualization/client/view_client.cc"], ["ViewClient::send_view_update"])

p("C17", "Device-code authentication: cached, polled until granted, never past expiry",
  "A token is requested from the server only when none is held in memory or on disk; once obtained it is stored and returned unchanged, without further requests, by this client and by later clients using the same storage until it is refreshed. "
  "While the server answers that authorisation is pending the client keeps polling with the same device code, waiting the interval the server asked for between polls, and stops with an error once the code's lifetime has elapsed; a failed device-code request, an unparsable answer or a success answer without token is an error, and no such error leaves a token in memory or on disk. Fields that the server adds to its answers make no difference, and an answer that reports an error never yields a token. "
  "Refreshing discards the token from memory and disk so that the next request obtains a new one.",
  ["fault_sequences", "histories"], "all sequences of get-token / refresh / new-client operations and all server answer scripts, in virtual time",
  "Tests use one well-behaved mock server with a fixed number of pending answers; they are not built here.",
  ["resim/auth/device_code_client.cc"], ["DeviceCodeClient"])

p("C18", "Stored credentials survive crashes and storage faults",
  "If the process is killed at any point while credentials are being stored or discarded, or a storage operation fails or writes only part of its data, then the next client to start never hands out an empty or truncated token: it hands out either a complete token issued by the server or obtains a new one. "
  "A view update sent after such a crash is still delivered.",
  ["crash_points", "fault_sequences"], "all crash points between and inside storage operations, all torn-write lengths, all single storage faults, during first login and after refresh",
  "No test crashes or faults anything.",
  ["resim/auth/device_code_client.cc", "resim/visualization/client/view_client.cc"], ["DeviceCodeClient::save_token", "DeviceCodeClient::load_token", "DeviceCodeClient::refresh"])

p("C19", "Statuses and assertions: failures propagate, values survive, evaluated once",
  "A status or value-or-status is either good or bad and says so consistently through copies, moves and conversions; a bad one keeps its message, file and line, reading the value of a bad one fails, and a good status cannot stand in for a value. "
  "The return-on-error, assign-or-return and check helpers evaluate their argument exactly once, leave the enclosing function with exactly the failing status (or fail) if and only if it is bad, and otherwise continue with the value intact, without extra copies and without touching a destroyed object. "
  "An assertion fails if and only if its condition is false, evaluating it once and reporting condition, location and message.",
  ["programs"], "all call chains of functions that succeed or fail at each level, for value, reference and move-only value types and for lvalue and temporary arguments",
  "Tests check each macro in isolation with trivially copyable values on one level, without memory checking.",
  ["resim/utils/status.hh", "resim/utils/status.cc", "resim/utils/status_value.hh", "resim/assert/assert.hh", "resim/assert/assert.cc"], ["Status", "StatusValue", "RETURN_OR_ASSIGN", "RETURN_IF_NOT_OK", "CHECK_STATUS_OK", "REASSERT"])

p("C20", "Identifiers: text form a bijection, equality and hash agree, never reused",
  "Formatting an identifier and parsing it back gives the same identifier, for every identifier; distinct identifiers format differently, equality holds exactly for equal bytes and implies equal hashes, and only the all-zero one is null. "
  "Text that is not exactly one well-formed identifier is rejected. "
  "Newly generated identifiers and frames are never null and never equal to an earlier one, also when generated by several threads or in a forked process.",
  ["inputs", "histories"], "all identifiers (each byte position taking all values), all single-character corruptions of the text form, all generation orders explored",
  "Tests compare a few generated ones and parse a few strings.",
  ["resim/utils/uuid.cc", "resim/utils/uuid.hh", "resim/transforms/frame.hh"], ["UUID", "Frame"])

p("C21", "Gaussian: valid parameters only, affine in its parameters, reproducible",
  "A multivariate Gaussian is constructed exactly when the mean and covariance dimensions agree and the covariance is symmetric positive semi-definite within rounding, and it reports the parameters it was given. "
  "Its samples are a fixed reproducible sequence of standard normal draws mapped by a square root of the covariance and shifted by the mean: degenerate directions have no spread, scaling the covariance by four doubles the deviations, shifting the mean shifts every sample, and drawing one at a time or in batches consumes the sequence without repeating. "
  "The sample mean and covariance helpers match their definitions and reject fewer than two samples for a covariance.",
  ["inputs"], "all small-integer symmetric and non-symmetric matrices up to dimension three, all batch splits of a sampling history",
  "Tests draw many samples from a few random covariances and compare statistics with loose tolerances.",
  ["resim/math/multivariate_gaussian.cc", "resim/math/multivariate_gaussian.hh", "resim/math/sample_statistics.hh"], ["Gaussian", "mean", "covariance"])

p("C22", "Viewing end to end: what the server decodes is what the user viewed",
  "For every viewable type and every way of viewing (streaming into the view, the macro with a streamed name, the macro with a name argument), the body received by the server decodes to exactly one object equal to the one viewed, with the given name or none, the file and line of the statement where available, and an identifier not used before. "
  "A sequence of view statements with a server that fails some of them raises an error to the caller for exactly the failed ones, and later statements neither resend nor lose anything: each is delivered with only its own object.",
  ["histories", "fault_sequences"], "all short sequences of view statements over all object types and ways of viewing, with every pattern of server failures",
  "Tests cover one object type at a time with a mocked client, and are not built here.",
  ["resim/visualization/view.cc", "resim/visualization/view.hh", "resim/visualization/client/view_client.cc", "resim/visualization/proto"], ["View", "VIEW", "ViewObject"])

p("C23", "Variant matching and reference wrappers dispatch to exactly the right thing",
  "Matching a variant invokes exactly one branch, the one for the alternative held, with that very object (not a copy, and movable when the variant is a temporary), and returns what the branch returns, references included. "
  "Reference wrappers always denote the original object; an empty optional reference says so and rejects every dereference.",
  ["programs", "inputs"], "all alternatives of variants of one to five types, branch orders, value categories and return kinds",
  "Tests check a few two- and three-way variants.",
  ["resim/utils/match.hh", "resim/utils/inout.hh", "resim/utils/nullable_reference.hh"], ["match", "InOut", "NullableReference"])

p("C24", "No hidden state: results do not depend on history or on other threads",
  "Every operation that only reads its arguments, and every operation on objects of its own (transform algebra, jets, curve and trajectory queries, sampling and time conversion, checked arithmetic, Gaussian construction and draws from one's own Gaussian, identifiers' text form, statuses and assertions, matching, packing and unpacking) gives bit for bit the same result whatever was computed before it, on whichever of several equal objects, and however often. "
  "Such operations may run in any number of threads at the same time, also on the same shared objects, without a data race and each with the result it gives alone; rejected uses included.",
  ["histories", "schedules"], "every sequence of operations before, and every interleaving with operations of other threads on the same objects",
  "Unit tests call each operation a few times in one thread in one order; caches, scratch buffers and lazily built tables that go wrong only in another order or with another thread pass them.",
  ["resim/transforms", "resim/curves", "resim/actor/state", "resim/time", "resim/math", "resim/utils", "resim/visualization/proto"], ["const member functions and free functions of the library", "pack", "unpack"])

p("C25", "Values behave as values: copies, moves, assignments and aliased arguments",
  "A copied, moved-to, assigned or swapped rotation, transform, framed vector, jet, rigid body state, curve, trajectory, Gaussian, event schedule, identifier or view update is indistinguishable, in every query, from the one it came from, and later changes to either never show in the other; a moved-from object can be assigned to again. "
  "Assigning an object to itself changes nothing, and an operation whose arguments are the object itself or parts of it (its own frames, derivatives, control points) gives what it would give with independent copies of them.",
  ["programs", "histories"], "every program of constructions, copies, moves, assignments, swaps and changes over several objects of every value type",
  "Tests copy a few objects once; chains of copies, moves and changes, self-assignment and arguments that alias the object changed are not tried.",
  ["resim/transforms", "resim/curves", "resim/actor/state", "resim/math/multivariate_gaussian.hh", "resim/time/event_schedule.hh", "resim/utils/uuid.hh", "resim/visualization/view_update.hh"], ["SO3", "SE3", "LieGroup::set_frames", "FramedVector", "TwoJetL", "TwoJetR", "RigidBodyState", "TCurve", "DCurve", "Trajectory", "Gaussian", "EventSchedule"])

p("C26", "Random durations are exactly uniform over the whole range and reproducible",
  "A random duration is drawn from the given generator only, every 64-bit nanosecond duration (both extremes and negative ones included) being equally likely whatever the generator's word size, and equal generator outputs give equal durations.",
  ["inputs"], "all outputs of any uniform random bit generator",
  "There is no test; statistical tests could not tell a missing extreme value.",
  ["resim/time/random_duration.hh"], ["random_duration"])

p("C27", "Several processes share stored credentials safely",
  "When several processes use the same stored credentials at the same time (logging in, refreshing, reading, sending view updates), every token handed out or sent is a complete token issued by the server, none of these operations fails because of what another process is doing to the store, and processes that start later find a complete token or obtain a new one. This holds in every order of the processes' storage operations, and also if one of them is killed at any point.",
  ["schedules", "crash_points"], "all interleavings of the storage operations of several processes, with death of a process at any point",
  "The tests use one client at a time; which of two processes opens, writes, renames or removes the file first cannot be arranged in a unit test.",
  ["resim/auth/device_code_client.cc"], ["DeviceCodeClient::save_token", "DeviceCodeClient::load_token", "DeviceCodeClient::refresh"])

p("C28", "Wire format: messages mean the same to every program and version",
  "The bytes that packing and serializing an object produces are those of the published message definitions: every field has its published number, type and meaning (frames, derivatives, times, payload kind, name, file and line; identifiers as 36-character lower-case text; transforms as the logarithm, rotation first; start times as seconds and 0 to 999999999 nanoseconds), so that a program in another language, or built from another version of the library, reads exactly the object that was packed. Conversely, every message that such a program writes in any encoding the format permits (fields in any order, lists packed or not, default values written or left out, unknown fields present) unpacks to the object it describes.",
  ["inputs", "histories"], "all objects of the serializable types and all encodings of their messages that the format permits",
  "The tests pack and unpack with the same generated classes, so a change made to both sides (a renumbered field, another type, another convention) is invisible to them although stored data and other programs depend on it.",
  ["resim/transforms/proto/se3.proto", "resim/visualization/proto/view_primitive.proto", "resim/curves/proto/t_curve.proto", "resim/actor/state/proto/trajectory_to_proto.cc", "resim/transforms/proto/liegroup_to_proto.cc", "resim/math/proto/matrix_to_proto.hh", "resim/utils/proto/uuid_to_proto.cc"], ["pack", "unpack", "pack_matrix", "unpack_matrix"])

p("C29", "Viewing works in every environment, storing credentials in the right place only",
  "Whatever HOME and TEST_TMPDIR are set to, or if they are not set at all, a program that includes the view facility starts and its view statements are delivered. The credentials are stored in .resim/view_token under the home directory (under TEST_TMPDIR if HOME is not set, and under the account's home directory if neither is), whether or not these directories exist yet, and in no other place; later programs in the same environment use them without a new login, and other files are left alone. If nothing can be stored there (a directory that is not writable, a file in the way), each program logs in for itself and works all the same.",
  ["configurations", "histories"], "all settings of the environment variables and states of the home directory, all sequences of programs with view statements",
  "Tests run in one environment, in which HOME and the directories are as the test runner makes them.",
  ["resim/visualization/client/view_client.cc", "resim/auth/device_code_client.cc"], ["ViewClient::determine_token_root", "ViewClient::ViewClient", "DeviceCodeClient::save_token", "DeviceCodeClient::load_token", "DeviceCodeClient::refresh"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
