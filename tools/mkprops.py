"""Writes /verif/properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": list(state),
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Ray operations give the same rays under every worker schedule",
     "Every operation that acts ray by ray (intersecting, reflecting, refracting, splitting, obscuring, phase screens, "
     "coordinate changes, propagating, positions, phases, amplitudes) produces bit-for-bit the result of a single-worker run, "
     "whatever number of workers is requested or granted and however they are interleaved, delayed or stalled. "
     "Workers never touch the same memory without synchronisation when one of them writes, and the operation always completes.",
     ["schedules", "inputs", "configurations"],
     "Every per-ray operation x every surface, medium, coating, obscuration type x every bundle size x every thread limit, "
     "granted team size and interleaving of the workers' memory accesses.",
     "The tests run with one or two real threads whose interleaving the OS picks; they never see another schedule, a team smaller "
     "than asked for, or a stalled worker, and they never compare thread counts.",
     ["src/batoid.cpp", "src/rayVector.cpp", "src/*.cpp", "batoid/trace.py", "batoid/rayVector.py"],
     [("OpenMP worksharing loops over rays with loop-private temporaries", "src/batoid.cpp, src/rayVector.cpp"),
      ("virtual surface/medium/coating/obscuration methods are const and keep no scratch state", "include/*.h")],
     [{"name": "ray arrays", "meaning": "per-ray state written in place by the loops", "where": "include/rayVector.h"}],
     ["batoid.trace functions", "RayVector methods", "Optic.trace"])

prop("C02", "Summed amplitudes count every eligible ray exactly once",
     "The summed complex amplitude of a bundle equals the flux-weighted sum of the individual rays' amplitudes, to rounding, "
     "counting each ray that has not failed (and, if asked, is not vignetted) exactly once, for every bundle size, thread limit, "
     "granted team and interleaving of the workers. Every pixel of a Huygens PSF is the squared magnitude of that sum over the traced rays that reach the focal plane "
     "unvignetted, equally schedule independent.",
     ["schedules", "inputs", "configurations"],
     "Every bundle (size, flags, fluxes, wavelengths) x thread limit x granted team x interleaving of loop bodies and of the final combination.",
     "Existing tests compare one evaluation on the thread count they happen to run with; a lost update or a dropped chunk needs a "
     "particular interleaving or a particular n/threads remainder.",
     ["src/rayVector.cpp", "batoid/rayVector.py", "batoid/analysis.py"],
     [("reduction(+:real,imag)", "src/rayVector.cpp RayVector::sumAmplitude"), ("flag filter in loop body", "src/rayVector.cpp")],
     observe=["RayVector.sumAmplitude", "RayVector.amplitude", "batoid.huygensPSF"])

prop("C03", "A ray's fate does not depend on the batch or worker that traced it",
     "Splitting a bundle into any chunks, in any order, tracing them in any worker processes (fresh interpreters, other hash seeds and "
     "thread limits, the model shipped as bytes), with lost, duplicated, reordered and retried work items and crashed workers, and "
     "reassembling the replies gives bit-for-bit the rays of tracing the whole bundle at once. "
     "In particular no ray's result depends on the other rays that happen to be traced with it.",
     ["histories", "fault_sequences", "schedules", "inputs"],
     "Every bundle, every partition/permutation/duplication of it, every assignment to workers, every sequence of message loss, "
     "duplication, reordering, crash and retry.",
     "Tests compare single rays with bundles at a few points only, in one process; they never reorder, duplicate, crash and retry work.",
     ["batoid/optic.py", "batoid/trace.py", "batoid/rayVector.py", "src/batoid.cpp", "src/obscuration.cpp", "src/medium.cpp"],
     [("loop bodies read only ray i and the constant model", "src/batoid.cpp"),
      ("RayVector slicing, concatenation and copying", "batoid/rayVector.py")],
     observe=["Optic.trace", "Optic.traceFull", "Optic.traceSplit", "Optic.clearObscuration", "RayVector.__getitem__", "concatenateRayVectors"])

prop("C04", "Host and accelerator never disagree about the rays",
     "In the accelerator build, for every sequence of operations and host reads, what the host observes is what the CPU build gives: "
     "no stale copy is read on either side, no host update is lost, nothing unsent is used on the device, device code never dereferences host memory, "
     "and short-lived models or bundles never leave device state behind that a later object at the same address picks up.",
     ["histories", "schedules", "configurations"],
     "Every history of ray operations, host reads, copies, comparisons and object lifetimes x every device memory content and team layout.",
     "The test suite never builds or runs the accelerator configuration; staleness needs a specific order of device writes and host reads.",
     ["include/dualView.h", "src/dualView.cpp", "src/batoid.cpp", "src/rayVector.cpp", "src/surface.cpp", "src/table.cpp", "src/sum.cpp", "src/obscuration.cpp",
      "src/medium.cpp", "src/coating.cpp", "batoid/rayVector.py"],
     [("syncState protocol: syncToHost/syncToDevice", "src/dualView.cpp"), ("device twins of models: getDevPtr/freeDevPtr", "src/surface.cpp and siblings"),
      ("Python accessors sync before exposing arrays", "batoid/rayVector.py")],
     [{"name": "syncState", "meaning": "which side of an array is fresh", "where": "include/dualView.h"},
      {"name": "_devPtr", "meaning": "device twin of a model object", "where": "include/surface.h, medium.h, coating.h, obscuration.h, table.h"}],
     ["RayVector accessors after any operation"])

prop("C05", "Concurrent callers can share one optical model",
     "Any number of caller threads may trace, analyse, look up, query and derive perturbed systems from the same shared optics, surfaces, "
     "media, coatings, obscurations and coordinate systems at once, each on its own rays, and each gets exactly the result it would "
     "get running alone, for every interleaving. Nothing shared is changed by it.",
     ["schedules", "histories"],
     "Every set of concurrent read-only or deriving calls on shared objects and every interleaving of them down to single bytecodes.",
     "The tests are single threaded.",
     ["batoid/optic.py", "batoid/analysis.py", "batoid/trace.py", "batoid/coordSys.py", "batoid/coordTransform.py", "batoid/surface.py", "batoid/medium.py",
      "batoid/obscuration.py", "batoid/utils.py", "batoid/lattice.py"],
     [("tracing touches only the caller's rays", "batoid/optic.py"), ("lazily computed attributes are idempotent", "batoid/optic.py cached_property"),
      ("no module-level mutable scratch state", "batoid/*.py")],
     observe=["results of the public API from several caller threads"])

prop("C06", "Perturbing a system never changes the original and changes only what was asked",
     "In any history of deriving systems from systems (shifts, rotations, replaced or perturbed surfaces, "
     "inserted or removed parts), including derivations cut short by an exception at any instant, every system already in existence stays "
     "exactly as it was, and the derived system equals the original except for the requested change, in every attribute and in how it traces.",
     ["histories", "crash_points", "fault_sequences"],
     "Every sequence of derivations from every live system, interleaved with traces and analyses, with an asynchronous exception or failed "
     "allocation at any point of any step.",
     "Tests check single derivations on a few systems and mostly compare traced rays of the result; they do not re-check earlier systems after "
     "later derivations, nor interrupted derivations.",
     ["batoid/optic.py", "batoid/coordSys.py", "batoid/surface.py"],
     [("with* methods build a new object from a shallow copy of the attributes", "batoid/optic.py"), ("CoordSys operations return new objects", "batoid/coordSys.py")],
     [{"name": "Optic.__dict__", "meaning": "constructor arguments plus caches", "where": "batoid/optic.py"}],
     ["Optic.with* methods", "equality, repr, attributes and traces of all live systems"])

prop("C07", "An operation that is cut short harms nothing else and can be retried",
     "If a call is aborted at any instant by an interrupt, a failed allocation or an error of its own, all models, settings, random state and "
     "rays other than the ones the call was to modify in place are as before, and the same call repeated afterwards gives the result an undisturbed call gives. "
     "An allocation failure surfaces as an error (a memory error, or the conversion error the binding layer makes of it), never as a crash or a wrong result.",
     ["crash_points", "fault_sequences", "histories"],
     "Every public call x every instant (bytecode, native call, allocation) at which an asynchronous exception or failing allocation can strike, "
     "alone or repeated.",
     "No test interrupts or starves a call.",
     ["batoid/optic.py", "batoid/analysis.py", "batoid/rayVector.py", "batoid/surface.py", "batoid/parse.py", "batoid/lattice.py", "batoid/utils.py", "batoid/global_vars.py", "pysrc/*.cpp"],
     [("no temporary mutation of shared objects or settings", "batoid/*.py"), ("results are assembled before they are published in caches", "batoid/optic.py")],
     observe=["snapshots of models, settings and RNG state around an aborted call", "result of the retry"])

prop("C08", "Results never depend on stale, foreign or uninitialised memory",
     "The result of every call is a function of its arguments: it is the same whatever garbage fresh memory contains, wherever and how densely the "
     "allocator places arrays, however soon freed memory is reused and whenever temporary or no longer referenced objects are collected. "
     "Native code never reads or writes outside the arrays it was given nor in released ones.",
     ["histories", "configurations", "inputs"],
     "Every public call x every allocator behaviour (contents of fresh memory, placement, reuse, quarantine) x every instant at which otherwise unreferenced objects are dropped.",
     "Tests run with one friendly allocator where fresh memory is mostly zero and freed memory mostly intact.",
     ["src/medium.cpp", "src/obscuration.cpp", "src/table.cpp", "src/polynomialSurface.cpp", "src/asphere.cpp", "src/sum.cpp", "src/tilted.cpp", "batoid/surface.py",
      "batoid/medium.py", "batoid/obscuration.py", "batoid/rayVector.py", "batoid/lattice.py", "pysrc/*.cpp"],
     [("Python wrappers keep the arrays and children alive whose raw addresses the native objects hold", "batoid/surface.py, medium.py, obscuration.py, rayVector.py"),
      ("outputs allocated uninitialised are fully overwritten", "batoid/rayVector.py, obscuration.py, lattice.py"), ("index clamps in tables", "src/medium.cpp, src/table.cpp")],
     observe=["all public results", "every native memory access"])

prop("C09", "Saved models and rays survive a restart unchanged and independent",
     "Any optic, part, coordinate system, lattice or bundle of rays that is serialised and restored, in this or in a newly started process with another hash seed, "
     "however often the round trip is repeated and whatever was done to it before, compares equal, hashes equal, and traces bit for bit like the original. "
     "A restored or copied object is independent of the original and of the byte store: modifying either rays later never shows in the other (a lattice restored from out-of-band buffers stays a plain view of them). "
     "A truncated or failed restore raises and leaves nothing half built.",
     ["histories", "crash_points", "fault_sequences"],
     "Every reachable object state (caches warm or cold, native twins built or not, mid-history) x every number of save/crash/restore cycles x serialisation protocol "
     "(including out-of-band buffers) x truncation point.",
     "Tests pickle freshly built objects in one process and do not go on using the restored copies.",
     ["batoid/rayVector.py", "batoid/optic.py", "batoid/surface.py", "batoid/medium.py", "batoid/coating.py", "batoid/obscuration.py", "batoid/coordSys.py", "batoid/coordTransform.py", "batoid/lattice.py"],
     [("__getstate__/__setstate__ rebuild the native twin", "batoid/surface.py, medium.py, coating.py, obscuration.py, rayVector.py"), ("__hash__/__eq__", "batoid/*.py")],
     observe=["pickle, copy.copy, copy.deepcopy, RayVector.copy"])

prop("C10", "Caller data passed in is neither modified nor retained",
     "Apart from rays and systems that an operation is documented to modify in place and the lattice type (a plain view of the caller's array), no call modifies the arrays, lists, dictionaries or objects it is given, "
     "and models and rays built from a caller's buffers are unaffected when the caller later reuses those buffers; this holds for any dtype, "
     "memory layout or read-only buffer, which must give the same result as an equal plain array or raise, at any interleaving of buffer reuse with later calls.",
     ["histories", "inputs", "schedules"],
     "Every constructor and function taking arrays or containers x every array layout x every later point at which the caller overwrites its buffer.",
     "Tests pass fresh contiguous float arrays and never touch them again.",
     ["batoid/rayVector.py", "batoid/surface.py", "batoid/medium.py", "batoid/obscuration.py", "batoid/coordSys.py", "batoid/coordTransform.py", "batoid/parse.py", "batoid/optic.py", "batoid/utils.py"],
     [("copying/broadcasting constructors", "batoid/rayVector.py _reshape_arrays, surface.py, medium.py, obscuration.py")],
     observe=["caller buffers after each call", "objects after the caller scribbles over its buffers"])

prop("C11", "Loading a model yields that file's content or an error, whatever the disk does",
     "Loading an optic or a dispersion table under missing files, permission and I/O errors, short or interrupted reads, listing order changes and files "
     "replaced between loads either returns exactly what the named file contains (the packaged file only when no such file exists) or raises; it never returns other, partial or stale data. "
     "A failed load leaves nothing behind: the next load once faults stop succeeds with the right content.",
     ["fault_sequences", "crash_points", "histories"],
     "Every packaged and user model file x every read/open/list step x fault kind and sequence x directory listing order x number of earlier loads.",
     "Tests load intact packaged files from a healthy disk.",
     ["batoid/optic.py", "batoid/medium.py", "batoid/parse.py"],
     [("open the given path, fall back to the packaged directory by file name", "batoid/optic.py Optic.fromYaml, batoid/medium.py TableMedium.fromTxt"),
      ("parser consumes the loaded configuration", "batoid/parse.py")],
     observe=["Optic.fromYaml", "TableMedium.fromTxt"])

prop("C12", "The thread limit in force is obeyed by every operation and changes no result",
     "Each parallel operation asks for at most the currently configured number of workers, and for all of them when there are that many rays, so it never uses more than the limit; a change of the limit takes effect "
     "from the next operation on, and no operation changes it. Operations complete correctly when fewer workers than asked for are granted or some are stalled, for bundles smaller than, equal to, or larger than the team.",
     ["schedules", "histories", "configurations"],
     "Every history of limit changes and operations x granted team sizes x stalls x bundle sizes.",
     "Tests set one limit for the whole run and never observe how many workers an operation requests.",
     ["batoid/global_vars.py", "batoid/trace.py", "batoid/rayVector.py", "batoid/coordTransform.py", "src/batoid.cpp", "src/rayVector.cpp"],
     [("limit read at call time and passed down as num_threads", "batoid/trace.py, batoid/rayVector.py, src/*.cpp")],
     [{"name": "_batoid_max_threads", "meaning": "thread limit", "where": "batoid/global_vars.py"}],
     ["requests reaching the threading runtime", "results"])

prop("C13", "Seeded random sampling is reproducible and isolated",
     "A randomly sampled bundle built from a given seed or generator state is the same in every process, thread interleaving and call history, "
     "consumes randomness only from the generator it was given, and neither reads nor disturbs any global random state. "
     "Without a seed, repeated calls give independent samples, uniform over the same region.",
     ["schedules", "histories", "inputs"],
     "Every sampling constructor x seeds/generators x interleavings of several samplers and of other users of random numbers x process restarts.",
     "Tests check one seeded call; isolation from other callers and from global state is not observable from a single call.",
     ["batoid/rayVector.py"],
     [("rng argument normalised to a Generator", "batoid/rayVector.py asGrid/asPolar")],
     observe=["RayVector.asGrid/asPolar with nrandom", "numpy.random and random global state"])

prop("C14", "Answers do not depend on what was asked before",
     "Every query (tracing a copy, traceFull, PSF, wavefront, spot, Zernike, focal and pupil quantities, lookups, surface and medium evaluation) on unchanged objects gives "
     "the same answer (bit for bit for ray operations and evaluations; to rounding where a linear-algebra or FFT library does the arithmetic) no matter which operations ran before it in the process, in which order, on which other objects, or how often, and equals the answer in a fresh process. "
     "Mutating an object returned by one call never changes the answer of another.",
     ["histories"],
     "Every sequence of public operations over several systems, fields, wavelengths and sizes, with results mutated by the caller in between.",
     "Each test asks each question once or in one fixed order.",
     ["batoid/analysis.py", "batoid/optic.py", "batoid/trace.py", "batoid/surface.py", "batoid/medium.py", "batoid/obscuration.py", "batoid/utils.py", "batoid/lattice.py", "batoid/rayVector.py", "batoid/coordSys.py"],
     [("functions work on their own rays and arrays", "batoid/analysis.py"), ("caches hold values derived from immutable attributes", "batoid/optic.py")],
     observe=["public query results over operation histories"])

prop("C15", "Rays evolve only as the operations applied to them say",
     "Over every history of operations on bundles (trace steps, splits, obscuration, coordinate changes, propagation, copies, slices, concatenations, aborted or retried calls on other bundles), "
     "a bundle's rays in global coordinates equal those of a simple one-ray-at-a-time model of the same history, to rounding. "
     "A failed or vignetted ray never recovers, wavelengths never change, flux never grows and changes only at coated surfaces, and operations on one bundle never show in another.",
     ["histories", "schedules", "fault_sequences"],
     "Every sequence of operations over several live bundles that share optics, under every worker schedule and with aborted calls in between.",
     "Tests apply one or two operations to a fresh bundle; invariants over long mixed histories and between live bundles are not sampled.",
     ["batoid/rayVector.py", "batoid/trace.py", "batoid/coordTransform.py", "batoid/coordSys.py", "src/batoid.cpp", "src/rayVector.cpp"],
     [("in-place loops plus the recorded coordinate system", "batoid/trace.py"), ("copy, slice and concatenate allocate new arrays", "batoid/rayVector.py")],
     [{"name": "rv.coordSys", "meaning": "frame in which the arrays are expressed", "where": "batoid/rayVector.py"},
      {"name": "vignetted/failed", "meaning": "monotone flags", "where": "include/rayVector.h"}],
     ["RayVector accessors after every operation"])

prop("C16", "Repeated work leaves nothing behind",
     "Over any number of repetitions of any history of constructions, operations, loads, saves and queries, including ones that fail or are interrupted, "
     "once the caller has dropped its objects what the process holds (rays, models, array, native and device memory, open files, threads, what batoid's modules and classes refer to) does not grow without bound. "
     "The same holds while an object is repeatedly replaced by one derived or copied from it: the ones it replaced are released.",
     ["histories", "fault_sequences"],
     "Every history, however long it is repeated, with numbers that differ each time, and with failing allocations and interrupts at every instant.",
     "Tests end after a few operations; what is left behind by each one shows only in what the process still holds after many.",
     ["pysrc/*.cpp", "src/*.cpp", "src/dualView.cpp", "batoid/optic.py", "batoid/rayVector.py", "batoid/surface.py", "batoid/medium.py"],
     [("objects own what they allocate and release it when dropped", "src/*.cpp"), ("constructors that keep pointers to parts give the array of pointers to the object", "pysrc/sum.cpp, pysrc/obscuration.cpp")],
     [{"name": "live blocks", "meaning": "what numpy's data allocator, C++ operator new and the device hold", "where": "dst/rt/simrt.cpp (dst_live)"}],
     ["memory use of a long-lived process"])

# ---- properties this family cannot decide
NA = {}


def na(id, title, statement, why, files, mech, reason):
    prop(id, title, statement, ["inputs"], "Every argument value.", why, files, mech)
    NA[id] = reason


W = "The tests evaluate the law at sampled arguments; it must hold at all of them."
na("N01", "Reflection and refraction obey the laws of optics",
   "Reflected and refracted rays lie in the plane of incidence, satisfy the law of reflection and Snell's law with the media's indices, and their speed matches the medium.",
   W, ["src/batoid.cpp", "batoid/trace.py"], [("reflect/refract kernels", "src/batoid.cpp")],
   "pure function of one ray and one surface: no schedule, clock, I/O, fault or history in it")
na("N02", "Sag, normal, gradient and intersection of every surface agree",
   "For every surface the normal is the unit normal of the sag, the gradient its derivative, and an intersection point lies on both the ray and the surface.",
   W, ["src/*.cpp", "batoid/surface.py"], [("surface classes", "src/")],
   "pure numerical identity of deterministic functions; nothing for a simulator to schedule or fail")
na("N03", "Refractive indices follow the stated dispersion formulae",
   "Each medium's index at a wavelength is the value of its documented formula or the interpolation of its table.",
   W, ["src/medium.cpp", "batoid/medium.py"], [("getN", "src/medium.cpp")],
   "pure function of a wavelength")
na("N04", "Coordinate transforms form a consistent group of rigid motions",
   "Forward and reverse transforms are inverse to each other, compose, and preserve lengths and angles.",
   W, ["batoid/coordSys.py", "batoid/coordTransform.py"], [("CoordSys/CoordTransform algebra", "batoid/")],
   "algebraic identity over inputs; the part of it that lives in histories of operations is covered by C15")
na("N05", "Field-angle projections invert and have unit direction cosines",
   "Every projection and its inverse round-trip and give unit vectors over their documented domain.",
   W, ["batoid/utils.py"], [("projection functions", "batoid/utils.py")],
   "pure function of two angles")
na("N06", "Wavefront, Zernike and PSF values are optically right",
   "Wavefront, Zernike coefficients, PSFs, focal lengths and pupil positions equal their definitions for the traced system.",
   W, ["batoid/analysis.py"], [("analysis functions", "batoid/analysis.py")],
   "correctness of a formula on given inputs; independence from schedule, history, memory and faults is covered by C02, C05, C08 and C14")
na("N07", "Obscurations contain exactly the stated region",
   "Each obscuration shape contains exactly the points of its documented region, and unions, intersections and negations are the set operations.",
   W, ["src/obscuration.cpp", "batoid/obscuration.py"], [("contains", "src/obscuration.cpp")],
   "geometric predicate on inputs only")
na("N08", "Packaged telescope models match their published prescriptions",
   "The packaged description files reproduce the reference optical designs.",
   "Tests compare with stored reference traces at sampled rays.", ["batoid/data"], [("YAML prescriptions", "batoid/data")],
   "property of data against an external reference, not of executions")
na("N09", "Drawing utilities draw the traced geometry",
   "2D/3D drawing helpers plot the surfaces and ray paths at their true positions.",
   "Only smoke tested.", ["batoid/optic.py", "batoid/plotUtils.py"], [("draw* methods", "batoid/optic.py")],
   "output goes to plotting back ends; deterministic rendering of inputs with no schedule or fault dimension")

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(here + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
