"""The properties, what decides them and how deep.  mkdocs.py writes properties.jsonl and MANIFEST.json from this."""

IO_RULE = ("One case = one seed = one plan: splines, files, clock settings, library calls and faults, all drawn from the seed; "
           "fault positions are drawn from the events (opens, reads, writes, closes, seeks, clock readings, allocations) that the "
           "same call has in a fault-free run. Non-trivial = at least one injected fault actually fired (or a file was corrupted, cut or a "
           "process crashed) in the run; distinct = different hash over the complete event trace and all results.")
IO_MEASURE = "distinct hashes of (operation, outcome, complete content of the simulated disk) after each library call"
WORK_RULE = ("One case = one seed = one plan: a workspace of splines, generators and copies that share data, and a history of operations on "
             "them, with failing allocations at positions drawn from the fault-free run of the same operation. Non-trivial = a modifying "
             "operation completed or a fault fired; distinct = different hash over the complete history of results.")
WORK_MEASURE = "distinct hashes of (operation, outcome, complete observable state of every spline in the workspace)"

THREAD_RULE = ("One case = one seed = one plan: shared and private splines or files, two to four threads with their operations, failing allocations "
               "and I/O faults, and the memory accesses at which threads are switched, drawn mostly from the places where the threads of a "
               "run without switches touch common data, synchronise or do I/O. Non-trivial = a switch of the plan took place or a fault fired; "
               "distinct = different hash over the order of the threads and all results.")
THREAD_MEASURE = "distinct hashes of the order in which the threads passed their accesses to common data, synchronisations and I/O events, and of the results under that order"

REAL = {
    "thread": ["all of src/baf, src/spl, src/util, src/io (compiled with -fsanitize=thread, linked to the simulator's own runtime)", "pugixml", "libstdc++"],
    "work": ["all of src/baf, src/spl, src/util that splines use"],
    "disk": ["all of src/baf, src/spl, src/util, src/io", "the converter programs (main() of each, run in process)", "pugixml", "libstdc++ file streams", "libc stdio on the descriptor level used by pugixml (fopen family replaced)"],
}
STUB = {
    "thread": ["thread scheduler: one thread runs at a time, switched at memory accesses, synchronisation and I/O as the plan says", "mutexes, shared mutexes, conditions, call_once and guards of static variables (simulated)", "file system, clock (in memory, as in the disk world)", "memory allocator outcome (operator new): real memory, simulated failures"],
    "work": ["memory allocator outcome (operator new): real memory, simulated failures", "the state of the random engine: advanced by the plan"],
    "disk": ["file system (in memory; open/read/write/writev/lseek/close/fopen family)", "clock and time zone (time, clock_gettime, gettimeofday; TZ)", "memory allocator outcome (operator new, pugixml's allocator): real memory, simulated failures", "process crash: the disk is frozen at the chosen write, as after a kill"],
}

SHARED_ASSUME = [
    "libstdc++'s and libc's own buffering and number formatting are correct",
    "a crash keeps exactly the bytes handed to write() before it (process kill; write-back caching of a power cut is not modelled)",
]

PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


def A(files, mech, state=None, observe=None):
    r = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        r["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        r["observe_at"] = observe
    r["hook_needed"] = None
    return r


prop("P01", title="A spline file reported as written is complete and faithful", world="disk", quick=6000,
     statement="When writing splines to an IGES, IRIT or XML file returns normally, the file on disk is a complete file of that format holding exactly the given splines in order (type, degrees, knots, control points, weights, to the precision of the format), no matter what short writes, interrupted calls, I/O errors, full disks, failing closes or failing allocations happened. If that cannot be achieved (also because the format cannot hold the splines or the path cannot be written) the call throws; a possible write on a healthy disk never throws. No other file and no input spline is changed.",
     over=["inputs", "fault_sequences", "configurations"],
     qtext="every list of B-splines and NURBS of parametric dimension 1 to 4 with any degree, knots, weights and space dimension; every sequence of I/O and allocation faults during the call; any previous content of the file",
     why="The tests write a handful of fixed splines to a healthy disk; none injects a fault, so an unchecked stream state, a lost tail or a wrong count for unusual sizes is invisible to them.",
     anchors=A(["src/io/iges_writer.cc", "src/io/irit_writer.cc", "src/io/irit_writer_utils.h", "src/io/xml_writer.cc", "src/io/xml_writer_utils.h", "src/io/writer.h"],
               [("stream state checked after writing", "WriteFile of each writer"), ("counts and sizes derived from the spline", "IGESWriter::GetGlobalSection.., IRITWriterUtils, XMLWriterUtils")],
               observe=["bytes of the file, parsed by an independent parser", "exception or normal return"]))
prop("P02", title="A VTK file reported as written holds the sampled geometry", world="disk", quick=6000,
     statement="When writing a VTK file returns normally, the file is a complete VTK data set whose points are the given splines evaluated on the requested equidistant parameter grids and whose cells connect exactly the neighbouring grid points of each spline, in order, with the cell type of its dimension, no matter what I/O or allocation faults happened. If that cannot be achieved (also because a spline has more than three parametric dimensions or the scattering does not fit) the call throws; a possible write on a healthy disk never throws. No other file and no input spline is changed.",
     over=["inputs", "fault_sequences", "configurations"],
     qtext="every list of splines of parametric dimension 1 to 3 with any scattering of at least one cell per direction; every sequence of I/O and allocation faults",
     why="The tests look at a few lines of a few files written to a healthy disk.",
     anchors=A(["src/io/vtk_writer.cc", "src/io/vtk_writer_utils.h"],
               [("points, cells and types written per spline with running offsets", "VTKWriter::WriteFile, VTKWriterUtils"), ("stream state checked after writing", "VTKWriter::WriteFile")],
               observe=["bytes of the file, parsed by an independent parser and compared with an independent evaluation"]))
prop("P03", title="Reading a complete file yields exactly its splines or an exception", world="disk", quick=5500,
     statement="Reading a complete IGES, IRIT or XML file returns exactly the splines it holds, in order, with the values in the file, whatever permitted layout it uses; if I/O errors, short or interrupted reads, early ends or failing allocations happen during the call, it either still returns exactly those splines or throws, and reading again afterwards succeeds. Splines returned can be evaluated; no file is changed.",
     over=["inputs", "fault_sequences", "configurations"],
     qtext="every complete file of the supported entities in any permitted layout (white space, line lengths, exponents, entity order, ignored entities); every sequence of read and allocation faults",
     why="The tests read a few fixed files on a healthy disk; an early end of input that is taken for the end of the data never occurs in them.",
     anchors=A(["src/io/iges_reader.cc", "src/io/irit_reader.cc", "src/io/irit_reader_utils.h", "src/io/xml_reader.cc", "src/io/xml_reader_utils.h", "src/util/string_operations.h"],
               [("section and entity parsing", "ReadFile of each reader"), ("number conversion", "util::StringOperations::StringVectorToNumberVector"), ("stream state checked after reading", "ReadFile of each reader")],
               observe=["splines returned, through their public interface", "exception or normal return"]))
prop("P04", title="A torn or cut file is never mistaken for different splines", world="disk", quick=8000,
     statement="If a process dies while writing a spline file, or a complete file loses its tail, then reading the file throws or returns exactly the complete splines of the old or the new version; it never returns a part of them or altered values. Writing the file again and reading it then succeeds.",
     over=["crash_points", "inputs", "histories"],
     qtext="every write event and every byte position at which the writer can die, every length a complete file can be cut to, for IGES, IRIT and XML, with or without an older version of the file",
     why="No test kills a writer or reads a truncated file; there are as many crash points as bytes.",
     anchors=A(["src/io/iges_reader.cc", "src/io/irit_reader.cc", "src/io/irit_reader_utils.h", "src/io/xml_reader.cc", "src/io/xml_reader_utils.h"],
               [("structural completeness checks (terminate section, bracket balance, XML well-formedness, value counts)", "ReadFile of each reader")],
               observe=["result of reading after the crash"]))
prop("P05", title="No input file can crash the readers or produce a broken spline", world="disk", quick=16000,
     statement="Reading or converting any file whatever, and running a converter program with any log file whatever, ends in bounded time with an exception or with well-formed splines that can be evaluated; it never crashes, hangs, accesses memory out of bounds, invokes undefined behaviour or exhausts memory.",
     over=["inputs"],
     qtext="every sequence of bytes as input file or log file; explored as junk and as mutations (bytes, numbers, lines, tokens, sections) of valid files",
     why="The tests read well-formed files and a few fixed wrong ones.",
     anchors=A(["src/io/iges_reader.cc", "src/io/irit_reader.cc", "src/io/irit_reader_utils.h", "src/io/xml_reader.cc", "src/io/xml_reader_utils.h", "src/util/string_operations.h", "src/io/executables/converter_log.cc", "src/spl/parameter_space.h", "src/spl/physical_space.h"],
               [("validation of counts, indices and knots before use", "readers; ParameterSpace and PhysicalSpace constructors")],
               observe=["process state (sanitizers), exception, splines returned"]))
prop("P06", title="The file converter writes the selected splines and reports which", world="disk", quick=5000,
     statement="A conversion that returns normally has written to the output file exactly the splines at the requested positions of the input file (all that the output format can hold when no positions are given, in order, each with its own scattering for VTK) and returns exactly the positions written; positions the format cannot hold are left out. It depends only on its own arguments and files, not on earlier successful or failed conversions with the same converter; if it cannot do that, also because of faults, it throws and may be repeated.",
     over=["inputs", "histories", "fault_sequences"],
     qtext="every pair of formats, every content, every list of positions (repeated, unordered, out of range), every history of conversions with one converter, every sequence of faults",
     why="The tests convert a few fixed files once per converter on a healthy disk.",
     anchors=A(["src/io/io_converter.cc", "src/io/io_converter.h"],
               [("selection of positions per output format", "IOConverter::GetPositions, GetSplinePositionsOfCorrectDimension"), ("reader and writer chosen by suffix", "IOConverter constructor / SetReader / SetWriter")],
               observe=["returned positions, bytes of the output file"]))
prop("P07", title="A converter program's log and exit tell the truth", world="disk", quick=5500,
     statement="When a converter program ends successfully, the output named in its log file holds exactly the splines selected there, and exactly one new entry was appended to the log naming exactly the positions written; earlier content of the log is unchanged. Whenever the program appends a statement that splines were written, the output file is complete, whatever faults happened; if the conversion did not succeed, the program does not end successfully.",
     over=["inputs", "fault_sequences", "histories"],
     qtext="all nine converter programs, every log file content that the documentation allows, every input content, every sequence of I/O and allocation faults, repeated runs with the same log",
     why="The tests call the log class with fixed files; no test runs a program with a failing disk.",
     anchors=A(["src/io/executables/converter_log.cc", "src/io/executables/converter_log.h", "src/io/executables/iges_to_irit.cc", "src/io/executables/irit_to_vtk.cc", "src/io/executables/xml_to_iges.cc"],
               [("log parsed before, written after the conversion", "main of each program, ConverterLog::WriteLog")],
               state=[("log file", "request and history of conversions", "ConverterLog")],
               observe=["exit status, log file, output file"]))
prop("P08", title="Program histories with crashes keep the log append-only and repairable", world="disk", quick=5500,
     statement="Over any history of converter program runs in which processes are killed at arbitrary points or meet I/O errors, earlier log content is never changed or lost, a log entry (even a torn one) only ever appears after the output was complete, and the next undisturbed run with the same log succeeds and produces the correct output.",
     over=["crash_points", "histories", "fault_sequences"],
     qtext="every history of up to five runs of a program with the same log, every crash point (any open, write byte, close) and fault sequence in each",
     why="Tests run no program and crash none.",
     anchors=A(["src/io/executables/converter_log.cc", "src/io/executables/converter_log.h"],
               [("log opened for appending only, after the conversion", "ConverterLog::WriteLog")],
               state=[("log file", "request and history of conversions", "ConverterLog")],
               observe=["log file and output file after every run"]))
prop("P09", title="Time stamps are readings of the clock in local time", world="disk", quick=9000,
     statement="Every time stamp written (file creation and model change time in IGES files, time of a log entry) is a value the system clock showed during that call, converted to local time and written in the format's fixed form, for every clock value and time zone, also when the clock jumps between readings; time never influences anything else in a file.",
     over=["configurations", "schedules", "inputs"],
     qtext="every clock value from 1970 to 2100, steps and jumps between any two readings, several time zones with and without daylight saving",
     why="The tests use the real clock of the machine and look at no time stamp in detail.",
     anchors=A(["src/io/iges_writer.cc", "src/util/system_operations.h", "src/io/executables/converter_log.cc"],
               [("formatting of the local time", "IGESWriter::GetTime, ConverterLog::GetTime")],
               observe=["global section of IGES files, log entries"]))
prop("P10", title="No handle or memory leaks on any path", world="disk", quick=4500,
     statement="Every read, write, conversion and program run releases all file handles and all memory it does not return, whether it succeeds, throws because of its arguments or a malformed file, or is cut short by an I/O error or a failing allocation anywhere; a failing allocation leads to an exception, never to a crash.",
     over=["fault_sequences", "inputs"],
     qtext="every operation of the I/O layer, every single failing allocation and combinations with I/O faults",
     why="The tests never fail an allocation or a system call and do not count handles or memory.",
     anchors=A(["src/io/io_converter.cc", "src/io/iges_reader.cc", "src/io/irit_reader.cc", "src/io/xml_reader.cc", "src/io/iges_writer.cc", "src/io/irit_writer.cc", "src/io/xml_writer.cc", "src/io/vtk_writer.cc"],
               [("ownership by values and smart pointers, streams closed by destructors", "all of src/io")],
               observe=["open descriptors after the call, live allocations over repeated identical calls"]))

WORK_ASSUME = ["the independent spline model in sim/model.cc (long double) is right", "tolerances: 1e-8 relative to the size and weights of the spline plus whatever the caller granted"]
SPL = ["src/spl/spline.h", "src/spl/b_spline.h", "src/spl/nurbs.h", "src/spl/parameter_space.h", "src/spl/physical_space.h", "src/spl/weighted_physical_space.h", "src/baf/knot_vector.cc"]
prop("P11", title="Histories of modifications keep the geometry", world="work", quick=9000, search="histories of modifying operations and failing allocations",
     statement="Whatever history of knot insertions, refinements, knot removals, degree elevations, degree reductions, divisions, copies and assignments a spline went through, including calls that failed for lack of memory and were repeated, it evaluates to the same points at the same parameters as before (a half of a divided spline: as the source on that side); only knot removal and degree reduction may deviate, each by no more than the tolerance given to the call.",
     over=["histories", "inputs", "fault_sequences"],
     qtext="every B-spline and NURBS with parametric dimension 1 to 3, any degree, multiplicities and weights, any direction; every history of operations; every failing allocation",
     why="The tests apply one operation, seldom two, to a few fixed splines; errors that need a certain multiplicity, direction, degree parity, or a knot vector left behind by an earlier operation do not show.",
     anchors=A(SPL, [("control points recomputed per operation", "Spline::InsertKnot/RemoveKnot/ElevateDegreeForDimension/ReduceDegreeForDimension, BSpline/NURBS::AdjustControlPoints/RemoveControlPoints/SudivideSpline")],
               observe=["Evaluate at sampled parameters; control points, knots, weights through the accessors"]))
prop("P12", title="Modifications have exactly their documented effect", world="work", quick=12000, search="histories of modifying operations and failing allocations",
     statement="Inserting knots adds exactly those knots; removing reports how many copies were removed, at most as many as asked for and present, and exactly those are gone (none: nothing changed); degree elevation raises one degree by one and keeps the continuity or less, degree reduction lowers it by one or reports false and changes nothing; division yields two splines with the knots of each side. Other directions are untouched, the numbers of points always fit knots and degrees, a knot just inserted can be removed again, a degree just elevated can be reduced again, and both restore the spline.",
     over=["histories", "inputs"],
     qtext="every B-spline and NURBS with parametric dimension 1 to 3 reached by any history of operations; every position, multiplicity, direction and tolerance",
     why="The tests look at the result of a few fixed calls.",
     anchors=A(SPL, [("knots, degree and number of points changed together", "Spline, ParameterSpace::InsertKnot/RemoveKnot/IncrementMultiplicityOfAllKnots, PhysicalSpace::Increment/DecrementNumberOfPoints"), ("removability test", "BSpline/NURBS::IsKnotRemovable")],
               observe=["knots, degrees, counts, control points, weights, return values"]))
prop("P13", title="Splines, generators and knot vectors never change each other", world="work", quick=12000, search="histories over objects that share data, with failing allocations",
     statement="A spline changes only through operations on itself: whatever is done to one spline (modification, failed modification, assignment, destruction), every other spline copied from it, assigned from it, built from the same knot vectors or generator, divided from it or swept from it, every generator and every knot vector the user holds stays exactly as it was. Copies and assigned splines equal their source; new splines equal their data.",
     over=["histories", "inputs", "fault_sequences"],
     qtext="every history of constructing (from knot vectors, generators, other splines), copying, assigning, destroying and modifying up to nine splines that share data in any way",
     why="Sharing needs at least two objects and a modification in the right order; the tests modify one object at a time and do not look at the others.",
     anchors=A(SPL + ["src/spl/nurbs_generator.h", "src/spl/b_spline_generator.h", "src/spl/surface_generator.cc"], [("spaces and knot vectors held by shared_ptr", "Spline::parameter_space_, BSpline/NURBS::physical_space_, ParameterSpace::knot_vector_"), ("copy before modification", "Spline::Modification; copy constructors")],
               state=[("parameter space, physical space, knot vectors", "shared between splines, generators and users", "Spline, generators")],
               observe=["complete state and values of every object after every operation"]))
prop("P14", title="A modification that fails has no effect", world="work", quick=10000, search="failing allocations and rejected arguments within histories",
     statement="An operation that cannot be carried out, because an allocation fails anywhere inside it or because its arguments are impossible (knot outside of the range, multiplicity beyond p+1, later knot of a list impossible, absent knot, division outside, discontinuous spline, inconsistent construction data), throws std::bad_alloc or std::runtime_error (or reports nothing removed), never crashes, leaves the spline and every other object exactly as they were and usable, leaks nothing, and succeeds when repeated with enough memory. Queries (evaluation, derivatives, basis functions, elements, comparison, projection) that run out of memory do the same and answer afterwards as before. Possible operations are not rejected.",
     over=["fault_sequences", "inputs", "histories"],
     qtext="every allocation within every modifying, copying, constructing, generating and querying operation, failing once or from then on; every impossible argument; any history before",
     why="No test lets an allocation fail, and there are thousands of allocations in one call.",
     anchors=A(SPL, [("transaction around every modification", "Spline::Modification"), ("argument checks", "Spline::InsertKnot/RemoveKnot, ParameterSpace and PhysicalSpace constructors, GetDividedKnotVectors")],
               observe=["exception type, complete state of all objects, number of live allocations"]))
prop("P15", title="Evaluation and comparison reflect the current state of a spline", world="work", quick=3200, search="histories of modifications and queries",
     statement="At any point of any history, evaluation, derivatives, basis functions and their derivatives, ranges, elements, homogeneous coordinates and weights are those of the mathematical spline with the current knots, degrees, control points and weights; evaluation outside of the knot vector range throws; equality holds exactly for splines whose degrees, knots, points and weights agree within the tolerance, geometric equality for refinements but not for moved splines. None of these changes anything.",
     over=["histories", "inputs"],
     qtext="every spline reached by a history of constructions, copies, assignments and modifications, every parameter including knots and ends, all derivative orders up to p+1 (total order up to 6 for curves, 4 for surfaces, 3 for solids), every comparison",
     why="Basis functions are cached per spline and rebuilt by each modification; tests evaluate freshly constructed splines.",
     anchors=A(SPL + ["src/baf/b_spline_basis_function.cc", "src/baf/zero_degree_b_spline_basis_function.cc", "src/baf/basis_function.cc", "src/baf/basis_function_factory.cc", "src/util/element_generator.h"], [("cached basis functions", "ParameterSpace::basis_functions_, RecreateBasisFunctions"), ("evaluation", "Spline::Evaluate/EvaluateDerivative, NURBS::GetRationalBasisFunctionDerivative")],
               state=[("basis functions", "must match knots and degrees", "ParameterSpace")],
               observe=["returned values against the independent model"]))
prop("P16", title="Generated splines are valid in every random engine state", world="work", quick=12000, search="random engine states, generator parameters and histories",
     statement="A random B-spline or NURBS generator yields, whatever was drawn from the random engine before, a valid spline of the requested dimension whose degrees, knot limits, coordinates and weights keep within the requested and documented bounds, and keeps yielding the same spline; the square generator covers exactly the square [-1,1]^2 with the requested degree and number of knots; a surface swept from two curves evaluates to the sum of the curves' points. Curves used for sweeping are not changed.",
     over=["inputs", "histories", "schedules"],
     qtext="every state of the (deterministically seeded) random engine reachable by draws and generators before, all limits, degrees and dimensions; every pair of NURBS curves reached by any history",
     why="The tests use the engine only in its initial state sequence and look at few properties of what is generated.",
     anchors=A(["src/spl/random_b_spline_generator.h", "src/spl/random_nurbs_generator.h", "src/spl/random_spline_utils.h", "src/util/random.h", "src/spl/square_generator.cc", "src/spl/surface_generator.cc"],
               [("draws from the engine", "util::Random::GetBinomialRandom"), ("joining of parameter and physical spaces", "SurfaceGenerator::JoinParameterSpaces/JoinPhysicalSpaces")],
               state=[("random engine", "one per thread, never seeded by the user", "util::Random")],
               observe=["complete state and evaluation of generated splines"]))

prop("P17", title="Splines can be read by any number of threads at once", world="thread", quick=3600, search="thread schedules at the level of memory accesses, and failing allocations",
     statement="Any number of threads may at the same time evaluate, differentiate, compare, copy, measure, project onto, sweep and query the same splines through their const operations and build splines from the same generators: there is no data race and no deadlock, every result is the one the thread gets alone, and the splines are unchanged, also if operations of some of the threads fail for lack of memory.",
     over=["schedules", "inputs", "fault_sequences"],
     qtext="every B-spline, NURBS and generator, every set of const operations in up to four threads, every interleaving of their memory accesses, every failing allocation",
     why="The tests have one thread. A cache filled on first use, a static buffer or a lazily built table passes every test.",
     anchors=A(SPL + ["src/baf/b_spline_basis_function.cc", "src/spl/b_spline_generator.h", "src/spl/nurbs_generator.h", "src/util/element_generator.h"], [("const operations read immutable data only", "Spline, BSpline, NURBS, ParameterSpace, PhysicalSpace, BasisFunction")],
               observe=["every memory access of the library (data races), results of every thread against the same thread alone"]))
prop("P18", title="Threads that use splines of their own never disturb each other", world="thread", quick=3200, search="thread schedules at the level of memory accesses, and failing allocations",
     statement="Threads that modify, assign, divide, generate and destroy splines of their own, even if these splines were copied from each other or built from the same knot vectors or generator and so share data, and threads that draw random splines, cause no data race and no deadlock, and each gets exactly the results it gets alone, also if operations of some of the threads fail for lack of memory.",
     over=["schedules", "histories", "fault_sequences"],
     qtext="every assignment of splines that share data in any way to up to four threads, every history of operations of each, every interleaving of their memory accesses, every failing allocation",
     why="The tests have one thread; hidden sharing shows only if one thread modifies while another reads.",
     anchors=A(SPL + ["src/util/random.h", "src/spl/random_spline_utils.h"], [("copy before modification of shared spaces", "Spline::Modification"), ("one random engine per thread", "util::Random")],
               state=[("parameter space, physical space, knot vectors", "shared between splines of different threads, never written", "Spline, generators")],
               observe=["every memory access of the library (data races), results of every thread against the same thread alone"]))
prop("P19", title="Threads that read and write different files never disturb each other", world="thread", quick=5000, search="thread schedules at the level of memory accesses and I/O events, I/O faults and failing allocations",
     statement="Threads that at the same time write, read and convert files, each writing only files of its own, with common splines and common input files, cause no data race and no deadlock; each gets the same files and splines as alone, also if I/O errors or failing allocations hit some of the threads: a fault in one thread never shows in another.",
     over=["schedules", "fault_sequences", "inputs"],
     qtext="every set of write, read and convert operations in up to four threads on different output files, every interleaving of their memory accesses and I/O events, every sequence of I/O and allocation faults",
     why="The tests read and write from one thread; a shared buffer, counter or stream state passes every test.",
     anchors=A(["src/io/iges_writer.cc", "src/io/iges_reader.cc", "src/io/irit_writer.cc", "src/io/irit_reader.cc", "src/io/xml_writer.cc", "src/io/xml_reader.cc", "src/io/vtk_writer.cc", "src/io/io_converter.cc", "src/util/string_operations.h"],
               [("no state outside of the objects of the caller", "all of src/io")],
               observe=["every memory access of the library (data races), files and splines of every thread against the same thread alone"]))

NOT_APPLICABLE = {
    "N01": dict(title="Projection finds the closest point of a curve or surface", statement="Projecting a point onto a curve or surface returns parameters inside the knot vector range whose point is the closest one.",
                over=["inputs"], qtext="every curve and surface, every point, every tolerance", why="The tests project a few points onto two splines.",
                anchors=A(["src/spl/projection.h"], [("Newton iteration from the best sample", "Projection::ProjectionOnCurve/ProjectionOnSurface")]),
                reason="A pure function of its arguments: it reads no clock, file or random engine, keeps no state and shares nothing between calls, so no schedule, fault or history can influence it; a local Newton iteration does not guarantee the closest point anyway, so there is no oracle either. Its building blocks (evaluation, derivatives, elements) are decided by P15."),
    "N02": dict(title="Sweeping along a trajectory with interpolation follows the trajectory", statement="A surface swept with interpolation points and scaling passes through the scaled, rotated profile at each of the points of the trajectory.",
                over=["inputs"], qtext="every pair of NURBS curves, every number of interpolation points and scaling", why="The tests sweep one pair of curves.",
                anchors=A(["src/spl/surface_generator.cc"], [("transformation per interpolation point", "SurfaceGenerator::GetTransformation")]),
                reason="A pure numeric construction without concurrency, time, I/O, state or sharing for a simulation to vary; the orientation of the moving frame is not specified anywhere, so the code itself would be the only oracle."),
    "N03": dict(title="The finite element example solves its equations", statement="The isogeometric analysis example assembles and solves the stated equations and writes the solution sampled on the geometry.",
                over=["inputs"], qtext="every geometry, right hand side and boundary condition", why="The tests compare a few matrices.",
                anchors=A(["example"], [("assembly and time stepping", "example/iga")]),
                reason="Example code that needs the Armadillo library, which this sandbox does not have, so it is not built or tested here; its core is pure numerics."),
}

THREAD_ASSUME = [
    "memory accesses take effect in the order of the program (weaker hardware orders show as data races, which are reported, or through atomics, where they are not modelled)",
    "libstdc++'s and libc's own data (locales, standard streams, the allocator) are safe to use from several threads",
    "threads created by the library itself would not be scheduled by the simulator (it creates none)",
]
RULES = {"disk": (IO_RULE, IO_MEASURE, SHARED_ASSUME), "work": (WORK_RULE, WORK_MEASURE, WORK_ASSUME), "thread": (THREAD_RULE, THREAD_MEASURE, THREAD_ASSUME)}
for p in PROPS.values():
    for key, text in zip(("rule", "measure", "assumptions"), RULES[p["world"]]):
        p.setdefault(key, text)
    if p["world"] == "thread":
        p.setdefault("note", "Seeded random exploration of schedules, no exhaustiveness claim; data races are found by happens-before order, so also where the explored schedule did not make them visible. Trusts the simulator's scheduler, race detector and disk model in sim/.")
