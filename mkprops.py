"""Writes properties.jsonl (kept as a script so the list stays consistent)."""
import json
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=observe or [], hook_needed=hook)))
S = "src/rigeo/"
SH = S + "shape/"

add("C01", "Samplers only return points of the region they were asked to sample",
 "Every point returned by a sampling operation lies in the shape it was requested from (for surface and edge samplers: on that shape's surface or edges), wherever the shape is placed and oriented, whatever values the caller's random source yields and however other users of that source interleave with the call. Exactly the requested number of finite points comes back, in the requested arrangement.",
 ["inputs", "schedules", "fault_sequences"],
 "all shapes, poses and requested arrangements x all streams of the random source (including extreme, repeated and clustered draws) x all interleavings of callers sharing one source",
 "The tests sample a few axis-aligned shapes with seed 0; they never see a rotated or translated body for the surface samplers, an extreme draw, or a shared source.",
 [S+"random.py", SH+"box.py", SH+"ellipsoid.py", SH+"cylinder.py", SH+"capsule.py", SH+"poly.py"],
 [("affine map of unit samples", SH+"ellipsoid.py random_points"), ("area-weighted face projection", SH+"box.py random_points_on_surface"), ("edge slicing", SH+"box.py random_points_on_edges"), ("convex weights", S+"random.py random_weight_vectors"), ("rejection loop", S+"random.py rejection_sample")],
 observe=["returned arrays"])
add("C02", "Uniform samplers stay uniform however the campaign is scheduled",
 "The samplers documented as uniform (interior of boxes, ellipsoids of any dimension, cylinders, capsules and unions of shapes; surface of boxes, ellipsoids and spheres; edges of boxes) produce independent points that are uniformly distributed over their region, and a point's position within a returned batch says nothing about where it lies. This holds however the total is split into calls, however several samplers share one random source, and whichever calls are interrupted and repeated.",
 ["schedules", "histories", "inputs"],
 "all splittings of a campaign into batches, interleavings of samplers on one source, interrupt-and-retry histories and all shapes/poses",
 "Three tests count points in one inscribed box of one axis-aligned shape with 1% slack; no surface or edge sampler, no small batch, no shared source and no order dependence is ever examined.",
 [S+"random.py", SH+"box.py", SH+"ellipsoid.py", SH+"cylinder.py", SH+"capsule.py"],
 [("radius exponent 1/dim", S+"random.py random_points_in_ball"), ("area-proportional rejection", SH+"ellipsoid.py random_points_on_surface"), ("multinomial over faces/edges then shuffle", SH+"box.py"), ("refill loop", S+"random.py rejection_sample")],
 observe=["empirical distribution of returned points"])
add("C03", "Randomised calls depend on nothing but the random source they are given",
 "A randomised operation given a seed returns the same result every time, and one given a generator returns a result that is a function of that generator's state alone and advances it: no other caller, thread, global random state or earlier call can change the outcome, and the call leaves every global random state and every other generator untouched. Given a source it never consults the operating system for randomness; given none it draws fresh randomness for each call.",
 ["schedules", "histories"],
 "all interleavings of any number of clients with private or shared sources, with arbitrary use of the global random state in between, and interrupted calls of other clients",
 "Tests pass one generator through one thread and never compare two executions of the same seed.",
 [S+"random.py", S+"inertial.py", S+"spatial.py", SH+"box.py", SH+"ellipsoid.py", SH+"cylinder.py", SH+"capsule.py", SH+"poly.py"],
 [("every entry point normalises its source once and passes it down", S+"random.py"), ("rejection loop forwards the source to the bounding shape", S+"random.py rejection_sample")],
 observe=["results", "generator state after the call", "global random state", "operating-system entropy requests"])
add("C04", "Rejection sampling ends with exactly the accepted points or a clear failure",
 "Rejection sampling against a union of shapes returns exactly the requested number of points, each drawn by the bounding shape and contained in at least one of the target shapes, as soon as enough candidates have been accepted; candidates that were not accepted and unfilled slots never show up in the result. It gives up with an error only after the permitted number of attempts, always after that number if too few candidates were accepted, and once candidates stop being rejected it finishes within a bounded number of further attempts; a failure in the middle of an attempt surfaces and leaves nothing behind for the next call.",
 ["fault_sequences", "schedules"],
 "all acceptance/rejection histories of the bounding and target shapes, attempt limits, requested arrangements and failing shapes",
 "Tests see two benign configurations and one that never accepts; accept patterns such as one-at-a-time, last-attempt success or a shape that fails once cannot be provoked with real shapes and a fixed seed.",
 [S+"random.py", SH+"capsule.py"],
 [("refill loop with attempt counter", S+"random.py rejection_sample")],
 state=[("points accepted so far", "prefix of the result array", S+"random.py"), ("tries", "attempts made", S+"random.py")],
 observe=["result", "candidates drawn from the bounding shape", "exceptions"])
add("C05", "Concurrent use of shared objects gives the answers of isolated use",
 "Shapes, polyhedra, inertial parameters, rigid bodies, polynomials and moment matrices can be shared between threads: every query made while other threads use the same objects returns what the same query returns when it runs alone on a private copy, under any interleaving. No query changes any shared object in a way that any other user can observe.",
 ["schedules"],
 "all interleavings (at every line and bytecode of the library) of any queries by any number of threads over shared objects",
 "The test-suite is single threaded; a cache or in-place shortcut that races is invisible to it.",
 [SH+"base.py", SH+"box.py", SH+"ellipsoid.py", SH+"cylinder.py", SH+"capsule.py", SH+"poly.py", S+"inertial.py", S+"rigidbody.py", S+"moment.py", S+"polydd.py", S+"constraint.py"],
 [("objects are immutable after construction and every query works on fresh arrays", S+"shape, inertial.py, rigidbody.py, moment.py")],
 observe=["query results in each thread", "probe queries after the run"])
add("C06", "An interrupted operation leaves no trace and can simply be retried",
 "If any operation is cut short at an arbitrary point by an interrupt, an allocation failure or a failing dependency, the exception reaches the caller, every object that existed before behaves exactly as before, and repeating the operation gives the answer it would have given without the interruption. Process-wide numerical settings and random state are left as they were found.",
 ["crash_points", "fault_sequences"],
 "all operations x all points inside them at which an exception may arrive x all following operations",
 "No test interrupts anything.",
 [SH+"base.py", SH+"box.py", SH+"ellipsoid.py", SH+"cylinder.py", SH+"capsule.py", SH+"poly.py", S+"inertial.py", S+"rigidbody.py", S+"moment.py", S+"polydd.py", S+"random.py", S+"closest.py"],
 [("operations build new objects and publish them only on return", "whole library")],
 observe=["probe queries after the interruption", "result of the retry", "process-wide numpy settings"])
add("C07", "Caller-owned arrays are neither modified nor retained",
 "No operation writes, even temporarily, into an array or list supplied by the caller. An object built from caller-supplied arrays or lists keeps behaving as built, and a returned array keeps its values, when the caller later overwrites or extends them, and overwriting a transformed copy of an object never affects the original.",
 ["histories", "schedules"],
 "all constructors and operations x all later writes by the owner of the buffers, at any time including while other calls run",
 "Tests never write to an argument after passing it.",
 [S+"inertial.py", S+"polydd.py", S+"rigidbody.py", SH+"box.py", SH+"ellipsoid.py", SH+"cylinder.py", SH+"poly.py", S+"util.py", S+"random.py"],
 [("constructors copy their inputs", S+"shape/*.py __init__")],
 observe=["bytes of the caller's buffers after every step", "probe queries after the owner scribbles over its buffers"])
add("C08", "Solver-backed geometry never passes off an uncertified answer",
 "The distance and closest points between two shapes, minimum bounding and maximum inscribed ellipsoids and ellipsoid-in-ellipsoid tests use only the solver the caller selected and, whenever they return, return the correct answer to solver accuracy. If the solver fails, stops early or reports anything other than a solution (or, for the containment test, a definite yes or no), an error is raised rather than an answer returned, and the next call is unaffected.",
 ["fault_sequences", "inputs", "histories"],
 "all shape pairs/sets x all sequences of solver outcomes (success, low accuracy, early stop with an unconverged iterate, claimed infeasibility, numerical error, crash, missing licence)",
 "Every test that reaches a solver needs a licence that is not available, and none of them makes a solver fail.",
 [S+"closest.py", SH+"ellipsoid.py", SH+"poly.py", SH+"capsule.py", SH+"box.py", SH+"cylinder.py", S+"rigidbody.py"],
 [("problem construction and status handling around each solve", S+"closest.py, shape/ellipsoid.py")],
 observe=["returned points, distances, ellipsoids, booleans", "exceptions", "solver invocations"])
add("C09", "Realizability constraints never exclude mass that fits, across any reuse",
 "The density-realizability constraints of a polyhedron, box, cylinder, ellipsoid or multi-shape body are satisfiable for the inertial parameters of every mass distribution inside it, and unsatisfiable for parameters whose centre of mass lies outside or whose pseudo-inertia falls short of the requested positive margin. The answer for given parameters does not depend on which parameters the same constraint problem was solved for before, nor on solver failures in between.",
 ["histories", "fault_sequences", "inputs"],
 "all shapes, poses and mass distributions x all sequences of solves on a reused problem with solver failures anywhere in the sequence",
 "The corresponding tests cannot run without a solver licence; they use one or two shapes, only succeed-always sequences and never a positive margin.",
 [SH+"poly.py", SH+"box.py", SH+"cylinder.py", SH+"ellipsoid.py", S+"moment.py", S+"constraint.py", S+"rigidbody.py"],
 [("moment relaxation: moment matrix + localizing matrices", S+"moment.py"), ("custom vertex constraints", SH+"box.py, cylinder.py, poly.py"), ("margin on the pseudo-inertia matrix", S+"constraint.py")],
 observe=["solver verdict per solve"])
add("C10", "Merging bodies is independent of order and grouping and loses nothing",
 "Combining the inertial parameters or rigid bodies of any number of parts gives the same total in whatever order and grouping the partial results are merged, equal to the parameters of all the parts' mass taken together; massless parts are neutral. A merge neither changes its operands nor loses, duplicates or reorders a part's shapes, and transforming before or after the merge gives the same result.",
 ["schedules", "histories"],
 "all merge trees and arrival orders of any multiset of parts (including massless ones), with merges repeated after a worker dies",
 "Tests add a part to itself once; massless parts and grouping are never tried.",
 [S+"inertial.py", S+"rigidbody.py"],
 [("addition in the linear (mass, first moment, second moment) coordinates", S+"inertial.py __add__"), ("identity for sum()", S+"inertial.py __radd__, rigidbody.py __radd__")],
 observe=["totals", "operands after the merge"])
add("C11", "Work resumes identically from a checkpoint after a crash",
 "Any library object, together with the random generator in use, can be saved and restored in a new process (with a different hash seed) such that continuing from the last checkpoint after a crash at any point gives the same results as a run that was never interrupted. Nothing outside the saved objects influences later results.",
 ["crash_points", "histories"],
 "all programs over all object kinds x all crash points x all checkpoint placements",
 "No test pickles anything or compares a resumed run with an uninterrupted one.",
 [S+"random.py", S+"moment.py", S+"inertial.py", S+"rigidbody.py", S+"spatial.py", S+"polydd.py", SH+"base.py", SH+"box.py", SH+"ellipsoid.py", SH+"cylinder.py", SH+"capsule.py", SH+"poly.py"],
 [("plain-data objects without hidden process state", "whole library"), ("hash of a moment index derived from its value", S+"moment.py MomentIndex")],
 observe=["results after restore"])
add("C12", "A body and its mass stay in step through any session",
 "After any sequence of assembling, moving, merging, converting between parameter representations, and copying bodies, including operations that were interrupted and repeated or resumed from a checkpoint, a body's inertial parameters equal those of its original material carried through the same motions. Each of its shapes contains exactly the correspondingly moved points, its bounding shapes contain it, and bodies with the same history compare as the same.",
 ["histories", "fault_sequences"],
 "all operation sequences over bodies made of every shape kind, with interruption, retry and restore anywhere",
 "Tests apply one or two operations to one body; no test follows material through a sequence, and capsules or interrupted steps never occur.",
 [S+"rigidbody.py", S+"inertial.py", SH+"box.py", SH+"ellipsoid.py", SH+"cylinder.py", SH+"capsule.py", SH+"poly.py", S+"util.py"],
 [("transform of shapes and parameters with one cleaned pose", S+"rigidbody.py transform"), ("parallel-axis bookkeeping", S+"inertial.py transform")],
 observe=["contains", "inertial parameters", "is_same", "bounding shapes"])
add("C13", "Folding intersections in any order yields the common region",
 "Intersecting any number of convex polyhedra pairwise, in whatever order and grouping the partial results become available, yields the region common to all of them, or reports emptiness exactly when they have none. Intermediate results behave as ordinary polyhedra with consistent vertices and faces, and no operand is changed.",
 ["schedules", "histories"],
 "all families of polyhedra (any pose, touching none, some or all) x all merge trees x interrupted and repeated merges",
 "Tests intersect two axis-aligned boxes in a handful of positions.",
 [SH+"poly.py", S+"polydd.py", SH+"box.py"],
 [("stacked face forms converted by cdd", SH+"poly.py intersect"), ("empty generator matrix means no intersection", S+"polydd.py from_cdd_matrix")],
 observe=["membership of points", "vertices and faces of the result", "None results"])
add("C14", "Experiment data on disk is complete, aligned and never overwritten",
 "A run of the data-generation experiment either leaves one complete data file, whose value and timing entries all belong to the same sequence of trials, or leaves nothing the processing script would accept as data, wherever the solver fails, the disk fills up or the process dies. Data files of earlier completed runs survive every later run, and recorded computation times are never negative, whatever the wall clock does.",
 ["fault_sequences", "crash_points", "schedules"],
 "all sequences of runs x clock readings (stalls, jumps back) x solver failures x crash and disk-full points during the save",
 "The scripts have no tests.",
 ["scripts/experiments/generate_drip_data.py", "scripts/experiments/process_drip_data.py"],
 [("time-stamped file name", "scripts/experiments/generate_drip_data.py main"), ("single archive written at the end", "scripts/experiments/generate_drip_data.py main")],
 observe=["files in the working directory", "output and exit of the processing script"])
add("C15", "Results do not depend on what the process did before",
 "Every deterministic operation gives, in a long-running process, the result it gives as the very first operation of a fresh process, whatever other objects were created, queried, garbage collected or re-created and whatever calls failed before. Two objects built from equal data answer every query alike.",
 ["histories", "fault_sequences"],
 "all histories of constructions, queries, deletions and failing calls before the call in question",
 "Each test builds its objects once and checks a couple of queries; cross-talk through module-level state or identity-keyed caches needs a particular history.",
 [SH+"base.py", SH+"box.py", SH+"ellipsoid.py", SH+"cylinder.py", SH+"capsule.py", SH+"poly.py", S+"inertial.py", S+"rigidbody.py", S+"moment.py", S+"polydd.py", S+"util.py", S+"constraint.py"],
 [("no module-level mutable state", "whole library")],
 observe=["results compared with a fresh process"])
# ---- pure functions of their input: not simulation targets
add("C16", "All representations of inertial parameters carry the same information",
 "The parameter vector, pseudo-inertia matrix, spatial mass matrix, second-moment and inertia matrices of a set of inertial parameters describe the same body, and constructing from any of them recovers the others.",
 ["inputs"], "all masses, centres of mass and second moments", "Tests convert a few examples.", [S+"inertial.py", S+"constraint.py"], [("H2I/I2H", S+"inertial.py")])
add("C17", "Closed-form density parameters equal the true integrals",
 "Uniform, hollow, wireframe and vertex-mass parameters of a shape equal the moments of the corresponding mass distribution for every size, pose and mass.",
 ["inputs"], "all shapes, poses, masses", "Tests check proportionality only.", [SH+"box.py", SH+"cylinder.py", SH+"ellipsoid.py", SH+"poly.py"], [("closed forms", SH+"box.py")])
add("C18", "The wrench regressor reproduces the Newton-Euler wrench",
 "For every velocity, acceleration and set of parameters the regressor times the parameter vector equals the body wrench from the mass matrix.",
 ["inputs"], "all motions and parameters", "One random case is compared with pinocchio.", [S+"rigidbody.py", S+"util.py", S+"spatial.py"], [("lift6", S+"util.py")])
add("C19", "Moment and localizing matrices agree with direct evaluation",
 "For every point and polynomial, evaluating the symbolic moment and localizing matrices at the point's moments equals multiplying out the monomials and the polynomial.",
 ["inputs"], "all dimensions, degrees, polynomials, points", "One 1-D symbolic example is tested.", [S+"moment.py"], [("index addition", S+"moment.py")])
add("C20", "Vertex and face descriptions of a polyhedron are equivalent",
 "Converting between span and face form, canonicalising, transforming or taking the hull preserves the described set for bounded, unbounded and lower-dimensional polyhedra.",
 ["inputs"], "all point sets and half-space systems", "A few boxes and one square are tested.", [S+"polydd.py"], [("cdd conversion", S+"polydd.py")])
add("C21", "Closed-form bounding and inscribed shapes bound and are inscribed",
 "Axis-aligned boxes, bounding boxes, inscribed boxes and closed-form bounding or inscribed ellipsoids contain (are contained in) their shape and are extremal, for every size and pose.",
 ["inputs"], "all shapes and poses", "Single examples are tested.", [SH+"box.py", SH+"ellipsoid.py", SH+"cylinder.py", SH+"capsule.py"], [("closed forms", SH+"ellipsoid.py")])
add("C22", "Optimisation containment constraints mean containment",
 "Generated containment constraints are satisfied by exactly the points the shape contains, with the scaled variant equivalent to dividing by the scale.",
 ["inputs"], "all shapes, points, scales", "The tests need a licensed solver.", [SH+"base.py", SH+"ellipsoid.py", SH+"cylinder.py", SH+"capsule.py", SH+"poly.py"], [("Schur complement", S+"constraint.py")])
add("C23", "Ellipsoid realizability test is exact",
 "An ellipsoid, degenerate or not, is reported to realize inertial parameters exactly when some mass distribution inside it has them.",
 ["inputs"], "all ellipsoids and parameters", "A few disks and segments are tested.", [SH+"ellipsoid.py"], [("trace conditions", SH+"ellipsoid.py can_realize")])
add("C24", "Linear-algebra helpers satisfy their defining identities",
 "Half-vectorisation round-trips, skew and lift matrices reproduce cross products and symmetric products, and transform matrices invert.",
 ["inputs"], "all vectors and matrices of all supported sizes", "A few sizes are tested.", [S+"util.py"], [("index arithmetic", S+"util.py")])
with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
