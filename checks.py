"""What check.py runs for each property."""
MC = "model_checking"
CHECKS = {
    "C01": dict(
        parts=[dict(name="words", sources=["harness/c01.cc"], config="asan", shards=8),
               dict(name="long", sources=["harness/c01l.cc"], config="opt", shards=5)], level=MC,
        technique="exhaustive enumeration of operation sequences of the real event schedule against a reference list",
        explanation="Every operation word within the bounds is executed on a fresh EventSchedule in lock step with a reference list; size, top time and payload compared after every operation, the queue drained at the end. A state is the model's queue content plus remaining capacity; a transition is one operation executed on the implementation.",
        note="All op words up to the listed depths (several timestamp alphabets incl. 64-bit extremes and present-day nanosecond neighbours), all words after a prefix that brings 8/16-bit counters to their limit, all short words repeated to length 150..1200, lives of more than 2^32 events with ties throughout; memory errors and UB trapped. Not covered: longer aperiodic histories.",
        assumptions=["popping an empty schedule is outside the contract"]),
    "C02": dict(
        sources=["harness/c02.cc"], config="ubsan", shards=8, level=MC,
        technique="exhaustive enumeration of a bounded input space on the real code against an exact 128-bit oracle",
        explanation="Every (start, span, step) of the listed boxes is executed; the visited timestamps are compared one by one with the exact rational positions in 128-bit integers. A state is one request; a transition is one call into the library (sample count, or a complete sampling run).",
        note="Complete within the boxes (small spans/steps, both directions; spans around all powers of 2 and 10 up to 2^63-1 with every interval count up to the bound; spans that do not fit), UB trapped. Outside the boxes nothing is claimed.",
        assumptions=["exact ties may be rounded either way"]),
    "C03": dict(
        sources=["harness/c03.cc"], config="ubsan", shards=8, level=MC,
        technique="exhaustive enumeration of a bounded input space on the real code against an extended-precision oracle",
        explanation="Every (start, end, step) of the listed boxes is executed and each visited sample compared with its ideal position in extended precision. A state is one request; a transition is one call into the library.",
        note="Complete within the boxes (dyadic and decimal grids, both directions, counts around 2^31/2^32, one-ulp spans, invalid steps). Quotients within rounding of an integer may be counted either way; positions to 1e-14 of the magnitude, endpoints exact.",
        assumptions=["counts of quotients within 2 ulp of an integer may fall either way"]),
    "C04": dict(
        sources=["harness/c04.cc"], config="ubsan", shards=8, level=MC,
        technique="exhaustive enumeration of bounded neighbourhoods of the input space on the real code against exact arithmetic",
        explanation="Every duration of the listed neighbourhoods goes through all four conversions. A state is one duration; a transition one conversion.",
        note="Complete within the neighbourhoods (all durations within 3 ms of zero; of powers of 2/10, seconds, days and the 64-bit limits; regular grids).",
        assumptions=[]),
    "C05": dict(
        sources=["harness/c05.cc"], config="ubsan", shards=8, level=MC,
        technique="exhaustive enumeration of boundary-value products on the real code against 128-bit arithmetic",
        explanation="All pairs of the boundary values, and for each value all partners that put the result within 3 of a limit. A state is one operand pair; a transition one checked operation.",
        note="Complete over the product of boundary neighbourhoods; undefined behaviour (signed overflow) trapped by UBSan.",
        assumptions=[]),
}
CHECKS["C06"] = dict(
    sources=["harness/c06.cc"], config="ubsan", shards=8, level=MC,
    technique="exhaustive enumeration of bounded operation programs on the real code in lock step with a frame-tracking model",
    explanation="Every program of transform / jet operations up to the bound runs on the real objects in lock step with a model of (target frame, source frame, exact lattice value); acceptance, frames, all frame queries and value compared after each operation. A state is a model state; a transition one operation executed on the implementation.",
    note="All programs up to depth 3, and 4 over a reduced alphabet (thorough 4 and 5), over frames null/A/B/A' (A' one bit from A), identity and non-identity values, all constructors and factories x 36 frame pairs, all framed-vector operations. Numeric values limited to the lattice.",
    assumptions=["subtraction of framed vectors, inherited unchecked from Eigen, is outside the contract"])
CHECKS["C07"] = dict(
    sources=["harness/c07.cc"], config="ubsan", shards=8, level=MC,
    technique="exhaustive enumeration of all pairs, triples and periodic long products over a finite set of group elements, real code against independent matrix arithmetic",
    explanation="Every element, pair and triple of the finite set (24 cube rotations x lattice translations, exact; plus general rotations and extreme translations) goes through all group operations and is compared with 4x4 matrix arithmetic in extended precision. A state is a distinct product; a transition one library operation.",
    note="Complete over the finite sets. General rotations are covered by representatives of every angle range only; tolerance 1e-13 of the scale.",
    assumptions=[])
CHECKS["C08"] = dict(
    sources=["harness/c08.cc"], config="ubsan", shards=8, level=MC,
    technique="exhaustive enumeration of a grid of axes, angle regimes and translations on the real code against an independent extended-precision matrix exponential",
    explanation="Every (axis, angle, translation) of the grid goes through exp, log, interp at 10 fractions, arc length and the differential; each result is compared with the matrix exponential computed by scaling and squaring in extended precision. A state is one grid point; a transition one library operation.",
    note="Complete over the grid, which has points on both sides of every branch threshold; between grid points nothing is claimed. Tolerance 1e-12 to 1e-13 of the scale.",
    assumptions=["at exactly a half turn either rotation axis is accepted"])
CHECKS["C09"] = dict(
    sources=["harness/c09.cc"], config="ubsan", shards=8, level=MC,
    technique="exhaustive enumeration of bounded programs over jets on the real code in lock step with truncated matrix Taylor polynomials",
    explanation="Every program of compose / invert / convert operations up to the bound runs on the real jets and, in parallel, on second-order Taylor polynomials of 4x4 matrices; pose, velocity and acceleration compared after each operation. A state is a distinct motion (value and derivatives); a transition one library operation.",
    note="All programs up to the depth over the listed jets (poses: identity, cube rotation, half turn, general; velocity and acceleration independently zero / general / special). Tolerance 1e-13 of the scale.",
    assumptions=[])
CHECKS["C10"] = dict(
    sources=["harness/c10.cc"], config="asan", shards=8, level=MC,
    technique="exhaustive enumeration of append/copy/query histories of the real curve in lock step with the list of accepted control points",
    explanation="Every history of the alphabet of valid and invalid appends, list appends and copies up to the bound runs on the real TCurve; after each step everything reported is compared with the model list, and in every distinct state the curve is queried at, beside and between all control points, outside, at NaN, and derivatives are compared with differences of the reported poses. A state is a distinct list of accepted controls; a transition one library call.",
    note="All histories up to the depth over 12 appends (6 valid shapes, 6 kinds of invalid) plus list appends and copies, three start times, framed and unframed, SE3 and SO3; periodic histories to 40/140 controls; memory errors and UB trapped. Derivatives by 4th-order differences, tolerance 1e-7 relative to the segment's scale.",
    assumptions=["a refused list append may keep the valid points before the bad one"])
CHECKS["C11"] = dict(
    sources=["harness/c11.cc"], config="asan", shards=8, level=MC,
    technique="exhaustive enumeration of append/copy/query histories of the real curve against geodesics of known length",
    explanation="Every history up to the bound is run on the real DCurve; points are generated from chosen increments, so exact segment lengths and geodesics are known from the extended-precision matrix exponential; accessors, all control points, joints and intermediate points, and all kinds of out-of-range queries are checked after every step. A state is a distinct list of accepted points; a transition one library call.",
    note="All histories up to the depth over 9 increments (straight, left, right, screw, 1mm, 250m, reverse, stay in place, turn on the spot), 4 kinds of wrong frames, list appends and copies; periodic histories to 45/150 points and a history of 1100.",
    assumptions=["consecutive control points are less than a half turn apart"])
CHECKS["C12"] = dict(
    sources=["harness/c12.cc"], config="asan", shards=8, level=MC,
    technique="exhaustive enumeration of append/query/copy histories and setter sequences of the real classes in lock step with the list of accepted controls",
    explanation="Every append/copy history up to the bound runs on the real Trajectory: start, end, duration, frames, each control (both query forms), one nanosecond outside each end, and intermediate times are checked. Every sequence of setters up to length 5 and all products and relative states of 12 states run on the real RigidBodyState against Taylor polynomials. A state is a distinct list of accepted controls or set of parts; a transition one library call.",
    note="All histories up to depth 4 (thorough 5) over 14 appends (nanosecond-odd spacings from 1 ns to 3 h, 7 kinds of invalid), list appends, copies, rebuild from curve; three epochs; periodic histories to 60 controls; memory errors and UB trapped.",
    assumptions=["trajectories span less than twenty days (beyond that floating seconds cannot hold nanoseconds)", "a refused list append may keep the valid controls before the bad one"])
CHECKS["C13"] = dict(
    sources=["harness/c13.cc"], config="asan", shards=8, level=MC,
    technique="exhaustive enumeration of a bounded object space times prior message contents, round trip on the real code",
    explanation="Every object of the listed products (corner rotations incl. half turns and neighbourhoods, translations, framings, derivatives, times, curve lengths, payload kinds, names, files, lines, identifiers; all updates of short length) is packed fresh and over every prior content, serialised, parsed, unpacked (also over used objects), compared by the harness and round-tripped once more. A state is a distinct packed message; a transition one pack or unpack.",
    note="Complete within the products. Geometry to 1e-9 (relative to the translation's size), everything else exactly. Texts are valid UTF-8, as protobuf strings require; an empty name counts as no name. Memory errors and UB trapped.",
    assumptions=["names and file names are valid UTF-8", "an empty user defined name is equivalent to none"])
CHECKS["C14"] = dict(
    sources=["harness/c14.cc"], config="asan", shards=8, level=MC,
    technique="exhaustive enumeration of structural mutations (single and paired), truncations and byte corruptions of messages on the real code against an independent validity rule and decoder",
    explanation="For valid messages of every type, every mutation of every field (found by reflection), every ordered pair of mutations, every truncation of the wire form and every single-byte corruption is unpacked; the harness's own validity rule says whether it must be rejected, and its own decoder what a valid one must yield. A state is a distinct mutated message; a transition one unpack.",
    note="Complete within the mutation alphabet (identifier characters at every position, list lengths, missing/empty/duplicated/reordered submessages, times incl. NaN, frames exchanged), pairs of it, and single-byte wire corruption (large messages: single bits and complements in quick, all values in thorough). Cases the property does not specify (absent start time, curve whose first control is unframed) only need to be free of crashes.",
    assumptions=["messages reach unpack through protobuf's parser"])
CHECKS["C16"] = dict(
    sources=["harness/c16.cc"], config="asan", shards=8, level=MC,
    technique="stateless exhaustive exploration of all server-answer scripts against the real client (scripted HTTP stand-in), each request checked against the protocol",
    explanation="The real ViewClient talks to a scripted server through a stand-in for the HTTP library; at every request the explorer branches over all answers (depth-first re-execution). Every request (URL, session, number, token, body, repetition) and the reported status are compared with the protocol. A state is (update index, session held, number, tokens, answers, outcome); a transition one request.",
    note="All answer scripts: 2 updates over 12/13 answers, 4 updates over 5/5, 6 updates over 3/3 (thorough 3/5/8 updates), all words of <= 4 answers repeated over 300 updates, 70000 confirmed updates, credential failures at each use. Real HTTP transport is outside.",
    assumptions=["the HTTP library delivers each request it is given once and returns the server's answer", "201 Created is the only success answer of the view service"])
CHECKS["C17"] = dict(
    sources=["harness/c17.cc"], config="asan", shards=8, level=MC,
    technique="stateless exhaustive exploration of operation histories times server-answer scripts on the real client, in virtual time, against a reference model of memory and store",
    explanation="The real DeviceCodeClient runs with a scripted server (HTTP stand-in), interposed clock and sleep functions (virtual time) and a scratch token store; all operation words are combined with all answer scripts by depth-first re-execution. Requests (kind, content, count, timing), results and the store as a later client sees it are compared with the model. A state is (store, memory of both clients); a transition one operation or request.",
    note="All words of 5 (thorough 6) operations of two clients x all scripts; all scripts of one login over 5 code and 6 poll answers with up to 4 polls; 1440 timing combinations; 6 token texts; 4 store locations. Error answers other than pending, and missing interval, are not specified and not explored.",
    assumptions=["the program waits through the C library (nanosleep, clock_nanosleep, usleep, sleep)", "the server answers as OAuth device authorization specifies, or fails in one of the explored ways"])
CHECKS["C18"] = dict(
    sources=["harness/c18.cc"], config="plain", shards=8, level=MC,
    technique="exhaustive crash-point, torn-write and storage-fault injection at system call level on the real clients, with recovery in a fresh process",
    explanation="Each scenario runs in a forked process under a seccomp trap that sees every file system call on the scratch store, whoever makes it. For every call: killed before/inside/after it (every torn length of short writes), failing with several errors, doing part of its work, disk full afterwards; then pairs, and crashes of the restarted process. After each, a fresh process must get a complete token and deliver an update. A state is one (scenario, fault); a transition one storage operation executed.",
    note="Complete over the listed scenarios and fault kinds; pairs: second event restricted to crashes in quick, all in thorough. Process death, not power loss (the page cache survives).",
    assumptions=["the store is reached by file system calls, not by memory-mapped writes", "tokens already stored incomplete by older versions cannot be recognised"])
CHECKS["C15"] = dict(
    sources=["harness/c15.cc", "lib/sched.cc"], config="sched", shards=8, level=MC,
    technique="stateless model checking of the real code: all thread schedules within a preemption bound under a controlled scheduler, with happens-before race detection",
    explanation="Real threads run the real View singleton, ViewClient and DeviceCodeClient against a scripted server. The code is compiled with ThreadSanitizer's instrumentation but linked to this check's own runtime, which runs one thread at a time, may switch at every synchronisation operation, atomic operation and HTTP request, and checks every memory access with vector clocks. Schedules are enumerated depth first by re-execution in forked processes. A state is a distinct vector of thread positions, wait states and deliveries; a transition one scheduling point; a trace one schedule.",
    note="All schedules of two threads with one statement each (no preemption bound), and of larger scenarios (up to four threads, first login, unauthorised and refused answers) within the stated preemption bounds. Sequentially consistent memory; third-party libraries' internal locks are not scheduling points.",
    assumptions=["switching at synchronisation operations only is enough because executions with data races are violations themselves"])
CHECKS["C19"] = dict(
    sources=["harness/c19.cc"], config="asan", shards=8, level=MC,
    technique="exhaustive enumeration of bounded call chains and object programs over the real macros and classes, against a model of control flow and object lifetimes",
    explanation="Every call chain up to the bound, in which each level hands on its callee's result by one of 18 uses of the helpers and the innermost succeeds or fails, runs for value, move-only and reference types with values that record copies, moves and lifetimes; evaluation counts, control flow, the propagated status, the value and the number of copies are compared with the model. Every program of construct / copy / move / assign / convert / read operations over two objects runs in lock step with a model. All assertion forms with all messages. A state is a distinct (chain, outcome) or pair of object states; a transition one level or operation.",
    note="Complete up to 4 (thorough 5) levels and 4 (5) operations. Use of destroyed objects trapped by AddressSanitizer (including use after scope and return).",
    assumptions=[])
CHECKS["C20"] = dict(
    parts=[dict(name="values", sources=["harness/c20.cc"], config="asan", shards=8),
           dict(name="threads", sources=["harness/c20s.cc", "lib/sched.cc"], config="sched", shards=8)], level=MC,
    technique="exhaustive enumeration of identifier and text neighbourhoods and of generation histories (threads, forks, fresh processes) on the real code; all thread schedules under a controlled scheduler with race detection",
    explanation="Every identifier of the listed neighbourhoods goes through text form, parsing, copies, hash, nullness and frames; all pairs are compared; every corruption of the text form is accepted or refused as an independent parser says. Every generation history up to the bound runs with fork at every position and a clock that shows all processes the same times; identifiers of all histories are pairwise distinct. Concurrent generation runs under all schedules with every memory access checked for races. A state is a distinct identifier, text, history or scheduling state; a transition one library call or scheduling step.",
    note="Complete over the neighbourhoods (each byte position x 256 values, pairs of positions), all single-character edits of the text form, all histories of length up to 4 (thorough 5), 2-4 threads: single generations under all schedules, longer ones under at most 2 (thorough 4) preemptions. The operating system's randomness is trusted.",
    assumptions=["the operating system's random source does not repeat"])
CHECKS["C21"] = dict(
    sources=["harness/c21.cc"], config="ubsan", shards=8, level=MC,
    technique="exhaustive enumeration of small-integer matrices and of all batch splits of sampling histories on the real code against exact minors and linear relations",
    explanation="Every matrix of the listed families is offered as a covariance; acceptance is decided by exact integer principal minors; each accepted Gaussian's parameters, decomposition and samples are checked: the deviations must be one linear image, by a square root of the covariance, of the draws of the standard Gaussian under the same history. Every composition of a number of draws into single samples and batches runs on fresh, scaled, shifted, copied and interleaved instances. The statistics helpers are compared with their definitions in extended precision. A state is a distinct matrix or history; a transition one library call.",
    note="Complete over the listed matrix families and all batch splits of up to 7 (thorough 11) draws. The distribution of the draws is judged by deterministic moments of long batches. Tolerances 1e-9 relative.",
    assumptions=["dimension at least one"])
CHECKS["C23"] = dict(
    sources=["harness/c23_%d.cc" % i for i in range(6)], config="asan", shards=8, flags="-O0", level=MC,
    technique="exhaustive enumeration of variants, alternatives, branch orders, signatures, categories and return kinds, and of bounded programs over reference wrappers, on the real templates against a model",
    explanation="Every combination is instantiated and executed with alternatives that record copies, moves, lifetimes and addresses; the branch invoked, the object it saw, its value category and the result are compared with the definition. Every program of refer / copy / move / reset / write / read operations over two nullable references and over InOuts runs in lock step with a model. A state is a distinct combination or model state; a transition one match or operation.",
    note="Complete: 1-3 alternatives x all branch orders x 4 signatures x 5 returns x 5 categories; 4 alternatives with all branch orders, 5 with rotations and reversals, for selected signatures; wrapper programs up to 4 (thorough 5) operations. Memory errors trapped.",
    assumptions=[])
CHECKS["C22"] = dict(
    sources=["harness/c22.cc"], config="asan", shards=8, level=MC,
    technique="exhaustive enumeration of bounded histories of view statements with all server fault patterns, on the real view, client and serialisation against a decoding server",
    explanation="Every sequence of view statements within the bounds runs in a process of its own on the real View singleton, ViewClient, DeviceCodeClient and serialisation; a scripted server decodes each body and compares it with the object viewed, its name, file and line; errors reported to the caller are compared with the server's answers. A state is a distinct history; a transition one view statement.",
    note="Complete: single statements over 7 ways x 15 objects x 5 names x 12 server behaviours, all pairs over 3 ways x 7 types x fault pairs, all triples (thorough quadruples) over 2 ways x 2 types x 6 faults; long histories with a fault at each position. Memory errors and UB trapped.",
    assumptions=["an empty name counts as no name", "the HTTP library is replaced by a stand-in with its interface"])
CHECKS["C24"] = dict(
    parts=[dict(name="history", sources=["harness/c24.cc"], config="plain", shards=8),
           dict(name="threads", sources=["harness/c24s.cc", "lib/sched.cc"], config="sched", shards=8)], level=MC,
    technique="exhaustive enumeration of operation sequences (results compared with those in a fresh process) and stateless model checking of all pairs of operations in concurrent threads with happens-before race detection",
    explanation="Each reading or self-contained operation of the library is reduced to the bytes of its result, the reference being what it gives as the first operation of a process. Every ordered pair runs in a process of its own, every ordered triple in one process; every unordered pair runs in two threads on the same objects under all schedules within the preemption bound, with every memory access checked with vector clocks. A state is a distinct sequence or scheduling state; a transition one operation or scheduling step.",
    note="Complete over the operations listed in lib/pureops.hh (transforms, jets, curves, trajectories, states, sampling, conversions, Gaussians, identifiers, statuses, matching, serialisation; rejected uses included) and the stated sequence lengths and thread counts. Memory accesses inside third-party libraries are not seen.",
    assumptions=["memory allocation and the C++ runtime are thread-safe"])
CHECKS["C25"] = dict(
    sources=["harness/c25.cc"], config="asan", shards=8, level=MC,
    technique="exhaustive enumeration of bounded programs of copies, moves, assignments, swaps and (self-)changes over objects of every value type, in lock step with recipes",
    explanation="Every program runs on real objects; the model keeps, per object, the recipe (constructor and changes) its value stands for, and what the object shows in all its queries is compared, bit for bit, with an object built from the recipe alone. Changes take another object or the object itself as argument (aliasing). A state is a distinct observable value; a transition one operation.",
    note="Complete: all programs of 3-4 operations over two objects and 2-3 over three (thorough one more) for rotations, transforms, framed vectors, jets, states, curves, trajectories, Gaussians, schedules, identifiers and view updates; memory errors and UB trapped.",
    assumptions=["moved-from objects are only assigned to or destroyed"])
CHECKS["C27"] = dict(
    sources=["harness/c27.cc"], config="plain", shards=8, level=MC,
    technique="stateless model checking of real processes: all interleavings of their storage system calls within a preemption bound, with process death at every point",
    explanation="Two or three real processes run the real clients on one scratch store; a seccomp trap stops each before every file system call, and the explorer lets one perform one call at a time, enumerating the orders depth first by re-execution. No get, refresh or view update may fail or use anything but a complete token that the server issued, and a later process must get one too. A state is a distinct vector of process positions and tokens issued; a transition one storage operation; a trace one interleaving.",
    note="All pairs of 5 programs x stored/expired/no token x three families of token lengths with up to 2 (thorough 4) preemptions; with one process killed at any point; triples with 1 (2).",
    assumptions=["the file system makes each call atomic", "the store is reached by file system calls"])
CHECKS["C26"] = dict(
    sources=["harness/c26.cc"], config="ubsan", shards=8, level=MC,
    technique="exhaustive enumeration of generator output scripts on the real code, checking that the function from outputs to durations is one to one",
    explanation="Scripted generators emit every word of the listed set; a function of exactly 64 random bits is uniform over the 2^64 durations only if it is one to one and always uses all 64 bits, which is checked on all words, together with reproducibility. Real generators: exact byte counts of fixed sequences. A state is a distinct duration; a transition one call.",
    note="Complete over the listed words (neighbourhoods of all powers of two, all byte values at all positions, all 16-bit prefixes and suffixes) for generators of 64, 32, 16 and 8 bits. The spread of real generators is judged on fixed sequences of a million draws.",
    assumptions=["the generator's outputs are uniform over its declared range"])
CHECKS["C28"] = dict(
    sources=["harness/c28.cc"], config="asan", shards=8, level=MC,
    technique="exhaustive enumeration of objects and of their permissible encodings on the real code, against an independent reader and writer of the frozen message definitions",
    explanation="A reader and a writer of protobuf bytes, written by hand from the published field numbers, types and meanings, share no code with the generated classes. What the library packs must read as the object that was packed; what the writer writes, with the fields in every order and in every permissible style (lists packed, unpacked or split; varints padded; unknown fields; defaults written or left out), must unpack as the object. A state is a distinct message; a transition one pack or unpack; a trace one object and encoding.",
    note="Complete over the products of corner values listed in the evidence; all orders of the fields of the outermost message, first and last order of the inner ones.",
    assumptions=["the message definitions of the pinned commit are the published ones"])
CHECKS["C29"] = dict(
    sources=["harness/c29.cc"], config="plain", shards=8, level=MC,
    technique="exhaustive enumeration of environments, states of the home directory and programs, executed by real processes",
    explanation="Every setting of HOME and TEST_TMPDIR and every state of the home directory in the list, with every pair of programs of view statements (valid or expired token), run by two real processes one after the other, started anew under that environment as an unprivileged user in a scratch directory. Every statement has to be delivered, the token stored in the right place and nowhere else, and found by the second process. A state is a distinct environment, outcome and store; a transition one process; a trace one environment and pair of programs.",
    note="Complete over 15 homes x 3 test directories x 36 (thorough 900) pairs of programs.",
    assumptions=["HTTP is replaced by a stand-in that answers in the process"])
