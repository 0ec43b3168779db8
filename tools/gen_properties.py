#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe_at=None):
    a = {"files": files,
         "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    if state: a["state"] = state
    if observe_at: a["observe_at"] = [observe_at]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
TP = "xboa/tracking/tracking_process/_tracking_process.py"
TN = "xboa/tracking/tracking_process/_this_node_process.py"
TB = "xboa/tracking/tracking_process/_bsub_process.py"
TW = "xboa/tracking/tracking_process/xboa_tracking_process.py"
MT = "xboa/tracking/_multitrack.py"
CM = "xboa/common/_common.py"
HC = "xboa/bunch/weighting/_hull_content.py"
VW = "xboa/bunch/weighting/_voronoi_weighting.py"
HP = "xboa/hit/_hit.py"
BP = "xboa/bunch/_bunch.py"
HF = "xboa/hit/factory/"

# ---------------------------------------------------------------- tracking
prop("T01", "Distributed tracking equals serial tracking, in input order",
  "When a list of particles is tracked by a multi-process tracker around a tracker whose result for a particle depends only on that particle, the blocking call returns exactly what tracking the same list serially would: one list of output particles per input particle, in input order, equal in every stored value, for any list length and any number of worker processes, including more workers than particles and an empty list. Tracking one particle through the multi-process tracker returns the same as the wrapped tracker, and the same tracker object can be used again for further lists with results that depend only on the latest list. The non-blocking call hands the caller one job per worker process, and once those jobs have all ended collecting the results gives the same answer, while collecting earlier gives only complete results of jobs that have ended.",
  ["schedules", "inputs", "configurations"],
  "Every number of particles and workers, every order in which workers are scheduled, delayed and finish, every repeated use of one tracker, under slow workers and short reads or writes of the hand-over files.",
  "The existing tests start real processes on real time, so they sample one uncontrolled interleaving of two or three workers; most of them do not even run on this Python (the worker hand-over fails), and none compares with serial tracking under skewed completion orders.",
  [MT, TP, TN, TW], "splitting the hit list into chunks, handing each chunk to a worker process through pickle files, polling the jobs and concatenating their outputs in job order",
  [{"name": "job_list", "meaning": "jobs of the latest distributed call, in chunk order"}],
  "return value of the public tracking calls")
prop("T02", "A failed worker never turns into a silently wrong tracking result",
  "If any worker of a distributed tracking call cannot deliver its part (it cannot be launched, the tracker raises in it, it is killed, the disk is full, a hand-over file cannot be read or written, or the result file is missing or damaged), then collecting the results after all jobs have ended raises an error. The caller never receives a list that is shorter than the input, shifted against it, or contains particles that the tracker did not produce. The same holds for a single job: after it ended, asking for its return value gives either exactly the tracker's output for its particle list or an error.",
  ["fault_sequences", "crash_points", "schedules"],
  "Every worker and caller I/O operation as the point of a fault or kill, every combination of surviving and failing workers, under every schedule.",
  "No existing test makes a worker fail part-way or injects an I/O error; the tests can only kill a sleeping worker at one uncontrolled moment.",
  [MT, TP, TN, TW], "exit codes, existence checks and unpickling of the worker's result file; error propagation out of the multi-process tracker",
  None, "return value or exception of the public calls")
prop("T03", "A job's result belongs to its most recent start, whole or not at all",
  "After a job object has been started several times, with the same or a new particle list, the value it returns is the complete output for the list that was set at the most recent start, or an error is raised. A result left on disk by an earlier run, or a partially written one, is never returned as the outcome of a later run, even when the later run is killed or fails at any point, including before its worker did anything. A job that was never started, or that is still running, raises an error instead of returning a value.",
  ["histories", "crash_points", "fault_sequences"],
  "Every sequence of set-list, start, wait, kill, terminate and collect on one job, with kills and I/O faults at every operation of the worker and the caller.",
  "The existing tests start a job once per directory and never kill it between two runs, so stale and torn results are out of their reach.",
  [TP, TN, TW], "removal of old results before a run, the result file written by the worker, the alive check before reading",
  None, "value or exception when collecting the result")
prop("T04", "Job lifecycle calls and reports are truthful",
  "A job reports alive exactly while its worker process exists and has not ended, never before it was started. Starting a job that is alive raises an error and launches nothing; terminating or killing a job that was never started raises an error; a normal terminate or kill without a time limit returns only when the worker is dead. After the worker ended the job reports the integer exit code of the worker (zero for success, the negative signal number for a signal), and a job can be started again once it has ended.",
  ["histories", "schedules"],
  "Every sequence of lifecycle calls on a job, with the worker ending, being killed externally or ignoring the soft signal at any point in between.",
  "Existing tests exercise each call once in one order with real sleeps; the races between a worker ending and each call are not reachable deterministically.",
  [TP, TN], "the state machine over process handle, poll result and exit code",
  [{"name": "pid, exitcode", "meaning": "identity and outcome of the worker"}])
prop("T05", "Waiting for a job ends when the job ends or the time limit passes",
  "Waiting for a job without a time limit returns soon after the job ends; with a time limit it returns when the job ends or once that much time has really elapsed, and not before either of them. Jumps of the wall clock in either direction, slow workers, hung workers and workers that ignore the soft termination signal change neither. A wait never ends or alters the job it waits for, and the blocking distributed call returns or raises once all workers have ended.",
  ["schedules", "fault_sequences"],
  "Every time limit (zero, small, large, none), every worker duration, hang and clock jump, every schedule of caller and workers.",
  "Real-time tests cannot set clocks or produce hung workers, and only sample one timeout against one sleep.",
  [TP, TN, MT], "the polling loop that compares elapsed time with the limit; signal sending followed by waiting")
prop("T06", "Jobs are isolated from each other and from the caller",
  "Every job created or distributed gets a working directory of its own, which no other job (of this or any concurrently running program) uses, and its files stay inside it. Running jobs changes neither the particles handed in, nor the wrapped tracker, nor the template job, and a job stores a snapshot: changing the caller's list or particles after the list was set does not change what is tracked. Results delivered by one job are unaffected by any other job being started, killed or collected.",
  ["schedules", "histories"],
  "Several clients and jobs interleaved in every order, in one program or in several sharing the same scratch area, with kills and restarts.",
  "Existing tests run one client at a time.",
  [TP, TN, MT, TW], "unique scratch directories, deep copies of the template job, pickled snapshot of the particle list")
prop("T07", "A saved job is loaded whole or not at all",
  "Loading a job from its directory gives a job with exactly the tracker and the particle list that were last set successfully in that directory, which can be run and gives the same output as the original, or raises an error. This holds when the program that was saving was killed at any point, or the disk failed or filled up during the save: a failed save raises an error in the saver. A worker started on a damaged save exits with a non-zero code and leaves no result.",
  ["crash_points", "fault_sequences"],
  "Every I/O operation of the save and the load as a crash or fault point.",
  "Existing tests save and load once with a healthy disk and no crash.",
  [TP, TN, TB, TW], "pickle file of the job in its directory, written by the caller and read by the worker")
prop("T08", "A batch-queue job mirrors the queue's view of the job",
  "A batch job is submitted exactly once per start, with the queue, time limit and working directory it was given, and keeps the job number the queue assigned. It reports alive while the queue lists it as pending, suspended, waiting, unknown or running, and dead once the queue lists it as done or exited, with the integer exit code the queue reported (zero if none). Killing asks the queue to kill that job number and returns when the queue lists the job as ended or the time limit passed; killing or terminating a never-started job, starting a live one, or having no batch system available raises an error.",
  ["histories", "schedules", "fault_sequences"],
  "Every sequence of job calls against every history of queue states, delays and command failures.",
  "No batch system exists in the test environment, so those tests are skipped or fail; queue histories cannot be sampled at all.",
  [TB, TP], "command lines given to the queue and parsing of its textual answers")
prop("T09", "Simulation tracking never reuses seeds or spill numbers",
  "Each particle fired through the simulation-backed tracker gets the next consecutive random seed, starting at the configured one, and each tracking call stamps its output with the next spill number. The outputs correspond one to one and in order to the input particles. Saving and restoring the tracker continues seeds, spill number and last output exactly where they were, also when a simulation call failed in between.",
  ["histories", "fault_sequences"],
  "Every sequence of single and multi-particle calls, saves, restores and simulation failures.",
  "The simulation back end is not installed, so the existing tests of it cannot run here.",
  ["xboa/tracking/_maus_tracking.py", "xboa/tracking/_tracking_base.py"], "seed and spill counters, state saved for pickling")
# ------------------------------------------------- multiprocessing helpers
prop("P01", "Parallel map returns one result per argument, in order",
  "Running a function over a list of argument tuples in parallel returns a list with one entry per tuple in the same order, equal to what the serial call would give; where the function raises an ordinary exception the entry is that exception and other entries are unaffected. At most the requested number of calls run at the same time, each tuple is executed exactly once, and the helper processes it made are gone when it returns or raises. This holds for every completion order.",
  ["schedules", "fault_sequences", "inputs"],
  "Every argument list, pool size, duration of each call and completion order; exceptions in any subset of calls; failures to create helper processes.",
  "Existing tests use one list with real sleeps; completion orders and concurrent calls are not controlled.",
  [CM], "index-tagged work items, a result queue, and a final reordering")
prop("P02", "Background processes are tracked and all killed on request and at exit",
  "Every background process launched through the library's helper that is still running is killed by the kill-all call and at normal exit, unless kill-at-exit was switched off; this holds also when other launched processes have already ended, been collected or failed to launch. Kill-all never disturbs a process that was not launched through the helper and can be called repeatedly. A launch either returns a handle to a running process executing the given function once with the given arguments, or raises; forking by hand is refused when the plotting library is loaded.",
  ["histories", "fault_sequences", "schedules"],
  "Every sequence of launches, natural ends, launch failures, collections by the caller and kill-all calls, in either launch mechanism.",
  "Existing tests launch two or three well-behaved processes and kill them once.",
  [CM], "the registries of launched processes walked by the kill-all routine and the exit hook")
prop("P03", "Parallel tile contents equal the serial ones and release their workers",
  "The tile contents computed with several processes are, tile by tile, equal to those computed with one process and independent of scheduling, and the weights derived from them differ only by rounding. If a worker task fails the error reaches the caller and is the original one. Helper processes are released when the calculation fails, including when they could not be created.",
  ["schedules", "configurations", "fault_sequences"],
  "Every number of processes and completion order for generated tessellations; failures at pool creation and in any task.",
  "Existing tests compare one fixed tessellation with real pools.",
  [HC, VW], "a process pool mapping tiles to contents; termination on failure")
# ------------------------------------------------------------------- files
prop("F01", "Particles written to a file are read back the same",
  "Writing particles to any of the built-in text formats that can be written and reading the file back, by name, name pattern or open handle, gives the same particles in the same order, grouped by station, with every stored quantity of the format equal within the printed precision. This holds for any number of particles and stations, all supported particle types, unit choices and comment lines, and however the operating system splits the reads and writes. The same holds for user-defined column formats and for writing from the particle-group or the single-particle interface.",
  ["inputs", "configurations", "fault_sequences"],
  "Every generated particle set, format, station order and partition over several files, under every splitting of reads and writes.",
  "Existing tests round-trip a handful of fixed files through a healthy local disk.",
  [HP, BP, HF], "formatted writers and line-based readers sharing per-format column tables, units and particle codes")
prop("F02", "A failed write is always reported",
  "If opening, writing, flushing or closing the output file fails at any point, the writing call raises an error; it never returns normally while particles are missing from the file, except particles of a type for which the format has no code, which are left out with a printed warning or refused with an error. An unknown format is refused, and an existing file left alone. When a writing call has returned normally and the file was closed by the library, the complete data is in the file even if the program is killed right afterwards.",
  ["fault_sequences", "crash_points"],
  "An I/O error (full disk, device error, failing open) at every single operation of every writing call, and a kill right after return.",
  "Existing tests never inject a failing disk.",
  [HP, BP, CM], "exception handling around the per-line writes; explicit close of library-opened files")
prop("F03", "Writing never alters the particles",
  "Writing particles in any format leaves every stored quantity of every particle, and their order in the caller's list or group, unchanged, whether the write succeeds or fails at any point. Other threads that read a particle during the write see its unchanged values.",
  ["fault_sequences", "schedules"],
  "Every format, failure point and interleaving of a reader or second writer with the writer.",
  "Existing tests check neither failure paths nor concurrent readers.",
  [HP, BP], "translation of particle codes and station-wise grouping during writing")
prop("F04", "Damaged or unreadable input never invents or silently drops particles",
  "Reading a text file that was cut off at any byte gives an error or exactly the particles of the records that are complete, plus at most one whose last record was cut inside its final fields; records before the cut are never lost or altered. A line that does not have the columns of the format is passed over, or refused with an error, without affecting any other record; a field that is not a number raises an error. If the operating system reports a read error part-way, the reading call raises it and does not return a shortened list; a missing file raises an error. Reading never modifies any file.",
  ["fault_sequences", "inputs"],
  "Every truncation point, stray lines and every read operation failing, for every text format and entry point.",
  "Existing tests read intact files only.",
  [HP, BP, HF], "line-based record reader, end-of-file detection and error handling in the factories and loaders")
prop("F05", "Reading selects exactly the requested particles",
  "Reading with a name pattern, a limit on the number of particles or an acceptance test gives the first accepted particles up to the limit, in file order, taking all matching files in the order of their names; a pattern that matches no file raises an error. The grouping into particle groups, lists and station-keyed collections loses, duplicates or reorders nothing, and the lazy and the eager reading interfaces deliver the same particles. An exception raised by the acceptance test reaches the caller, and asking for a format that there is not raises an error.",
  ["inputs", "configurations", "fault_sequences"],
  "Every combination of files, directory listing orders, limits and acceptance tests, including raising ones, for every text format and reading interface.",
  "Existing tests use a few fixed files with fixed limits.",
  [HP, BP, HF], "hit-by-hit factory loop with limit and test, glob over file names, grouping by station")
prop("F06", "Template substitution is exact, or reports failure",
  "Substituting keywords in a file writes a file in which every occurrence of each keyword has been replaced by its value and everything else is preserved. If reading the input or opening, writing or closing the output fails at any point, an error is raised; if the call returns, the complete output is on disk and survives a kill right afterwards. The input file is never modified, unless it is itself named as the output, and both files are released on return.",
  ["fault_sequences", "crash_points", "inputs"],
  "Every generated template and keyword set; every I/O operation failing; a kill after return.",
  "Existing tests substitute one small file on a healthy disk.",
  [CM], "line-wise replacement from input handle to output handle")
prop("F07", "Reading spill documents gives every requested particle once",
  "Reading a file with one spill document per line gives every particle of the requested type in every spill exactly once, in file order, with the spill and event numbers of the place it came from; with several requested types every particle of each type is given once. The limit on the number of particles and the acceptance test select the first accepted particles, and particles written to such a file are found in it again with the same stored quantities. A line that is not a valid document, or a read error, raises an error rather than returning a shortened list, and so does a type that there is not.",
  ["inputs", "fault_sequences"],
  "Every generated sequence of spills, empty spills and event kinds, every limit and acceptance test, every read operation failing, truncation anywhere.",
  "The existing tests for this reader fail on this Python version, so nothing settles it.",
  [HF + "_maus_json_hit_factory.py", BP, HP], "generator over lines and event branches")
prop("F08", "Reading spill trees gives every requested particle once",
  "Reading files of spill trees gives every particle of the requested kind (simulated virtual hits, primaries and steps, reconstructed track points with or without time of flight) in every spill exactly once, in file order, with its stored quantities and the spill and event numbers of the place it came from; with several requested kinds every particle of each is given once. The limit on the number of particles (over all matching files) and the acceptance test select the first accepted particles. A file without a spill tree, an entry that cannot be read, or a failing acceptance test raises an error rather than ending the list early, and whoever goes on reading after such an error gets no particle that was refused or given before.",
  ["inputs", "fault_sequences", "histories"],
  "Every generated sequence of spills and events, every limit and acceptance test, every read operation failing, files that end early, several readers on one tree.",
  "Nothing tests these readers where the experiment's library is absent, and no test has spoilt files.",
  [HF + "_maus_root_hit_factory.py", HF + "_maus_root_recon_hit_factory.py", BP, HP], "generator over tree entries and event branches")
# ------------------------------------------------------------ shared state
prop("S01", "Global weights are shared by exactly the same particle's records",
  "After any history of operations by any number of users of the library, the global weight seen through a particle record is the last one set in the weight table in force through any record with the same spill, event and particle number since that table was last cleared, or else the default of the table (one unless it was changed); copying or restoring a record sets at most the weight of its own particle, to the saved value. Setting one particle's weight never changes another's, and this holds across copies, saved and restored records, records whose identity is changed, records that are destroyed, and switching between several weight tables, where all records and groups use the table in force. Clearing resets every particle's weight in that table, and local weights stay private to each record.",
  ["histories", "schedules"],
  "Every interleaved history of set, get, clear, copy, delete, renumber, cut and table-switch operations by several clients.",
  "Existing tests check a few fixed sequences with a few records.",
  ["xboa/core/cpplib/WeightContext.cc", "xboa/core/cpplib/Hitcore.cc", "xboa/core/pylib/PyWeightContext.cc", "xboa/core/pylib/PyHitcore.cc", HP, BP], "process-wide weight table keyed by particle identity in the C++ core",
  [{"name": "weight table", "meaning": "map from (spill, particle, event) to weight, and the pointer to the table in force"}])
prop("S02", "A particle group always agrees with a plain list of its particles",
  "After any history of appending, replacing, deleting (also of slices), reading by position or slice, and copying, with positive or negative positions, a particle group has the same length, particles and order as a plain list that underwent the same operations, and a deep copy is equal but independent; groups are equal just when their particles and any stored moments are. Its moments (about the given centre, or the group's mean of variables that it does not give), mean values and total weight equal those of a group freshly made from that list, also right after they were asked to be kept in store. An operation that fails raises an error and leaves the group unchanged.",
  ["histories", "fault_sequences"],
  "Every history of container operations by several clients, with failing operations (bad positions, wrong types, raising callbacks) at any point.",
  "Existing tests cover single operations on short fixed groups and miss the deletion and negative-position paths.",
  [BP, "xboa/core/cpplib/Bunchcore.cc", "xboa/core/pylib/PyBunchcore.cc", "xboa/core/utils/SmartPointer.hh"], "Python list of particles mirrored by a C++ list of shared particle records",
  [{"name": "core list", "meaning": "C++ mirror of the group's particles used for moments"}])
prop("S03", "Cuts and removals act on exactly the particles that match",
  "Cutting a group on any variables sets to zero the chosen weight (local or global) of exactly the particles for which the comparison holds, and leaves every other weight and all coordinates unchanged; transmission cuts and conditional removal likewise affect exactly the matching particles. Weighted totals and means used afterwards ignore the cut particles. If the comparison or test raises, an error reaches the caller and no particle has a value that neither the old state nor the finished operation would give.",
  ["histories", "schedules", "fault_sequences"],
  "Every history of cuts, clears and removals on several groups sharing particles, with callbacks that raise, that are interrupted or that run other clients' operations.",
  "Existing tests apply one or two fixed cuts with well-behaved comparisons.",
  [BP, "xboa/core/cpplib/Bunchcore.cc", "xboa/core/pylib/PyBunchcore.cc"], "comparison callbacks run per particle by the C++ core or by Python loops")
prop("S04", "Arithmetic on weight tables is pointwise and leaves its operands alone",
  "Adding, subtracting, multiplying or dividing two weight tables, or a table and a number, gives a new table whose default, and whose weight for every particle, is the result of the same operation on the operands' values, also for particles that only one operand knows; negating a table gives the old default for particles of zero weight and zero for all others. The operands, the table in force and all particles are unchanged by it, and the new table is independent of later changes to the operands, of clearing and of operands being destroyed. An operation with something that is neither a table nor a number, or a number minus or over a table, raises an error and changes nothing.",
  ["histories", "inputs"],
  "Every history of table operations by several clients interleaved with weight changes, clears, table switches and destruction of operands, with failing operations at any point.",
  "Existing tests check one fixed pair of tables for each operator.",
  ["xboa/core/cpplib/WeightContext.hh", "xboa/core/cpplib/WeightContext.cc", "xboa/core/pylib/PyWeightContext.cc"], "merge of two sorted weight maps with the operator applied per entry")
prop("S05", "Groups answer from their particles alone; transformations move each once",
  "Asking a group for emittances, lattice functions, amplitudes, dispersions, angular momenta, moments, lists of values, tables of several groups or histograms changes no particle, no group and nothing that the caller passed, and the answer is that of a new group of the same particles, given by its definition for the kind of momenta asked for (or else the default in force), whatever was asked, stored, switched or failed before. Translations, periodic, linear and shaping transformations apply the given map once to each entry of the group, restore the mass shell by the chosen variable only, and leave every other variable and every other particle unchanged; a transformation to given moments yields these up to a factor and conserves the emittance. A wrong name raises an error.",
  ["histories", "schedules", "inputs"],
  "Every history of queries and transformations, with failing ones, on several groups that share particles, by several clients, and switches of the kind of momenta in between.",
  "Existing tests ask each question once of one fixed group, mostly with the default momenta, and never check that asking leaves things alone.",
  [BP, "xboa/hit/_hit.py", "xboa/core/cpplib/Bunchcore.cc", "xboa/common/_common.py"], "queries that share defaults, stored moments and a switch for the kind of momenta; transformations that work on each particle in place")
# ------------------------------------------------------------- algorithms
prop("S06", "Reweighting reaches its targets and touches only the chosen weights",
  "Applying a polynomial or tile-based weighting to a group changes the chosen (local or global) weight of that group's particles and nothing else: no coordinate, no other weight, no other group's particles (except that a global weight belongs to every particle of that name). After a polynomial weighting the weighted moments of the group are the requested ones, with weights that are the old ones times one polynomial of the coordinates, normalised to the number of particles where all weights were 1; after a tile-based weighting every particle within the bound weighs its tile's content times the target density there, and every one outside weighs 0. A weighting can be used again, on other groups and with other targets, and then acts as a new one would. Targets that are malformed, given twice or of an order that the weighting does not know are refused, and a weighting that fails leaves every weight as it was.",
  ["schedules", "histories", "inputs"],
  "Every history of weightings by several users on groups that share particles, with failures in between.",
  "Existing tests apply each weighting once to Gaussian samples with targets of mean 0.",
  ["xboa/bunch/weighting/_multipole_weighting.py", "xboa/bunch/weighting/_voronoi_weighting.py", "xboa/bunch/weighting/_bounding_ellipse.py"], "weightings that keep data of the last group; a global weight table shared by all groups")
prop("S07", "The compiled core survives failing allocations and keeps nothing",
  "Whichever allocation fails while the compiled core works on a record, a group of records or a weight table (of a Python object at any point of the call, or of an array of a size that the call asks for), and whichever callback or argument conversion fails, the program goes on: the call either completes with its usual answer or raises an error, and leaves all records, groups and tables as they were or as the completed call leaves them (a cut may have been applied to some of the particles), and the same call works once there is memory again. No call, whether it succeeds, fails or is refused, and however often it is repeated, keeps references to the objects it was given, or memory, once its results are dropped; records that nobody holds any more are released.",
  ["fault_sequences", "inputs", "histories"],
  "Every allocation of every call may fail, in every state of records, groups and tables, and calls are repeated without limit in long-running programs.",
  "Existing tests run with enough memory, look at results and not at references, and refuse few calls.",
  ["xboa/core/pylib/", "xboa/core/utils/TypeConversions-inl.hh", "xboa/core/utils/PythonComparator.hh", "xboa/core/utils/SmartPointer.hh"], "hand-written reference counting and unchecked allocations between Python and C++")
prop("O01", "Closed-orbit search terminates and reports only what was tracked",
  "For any tracker, also one that loses particles, fails or returns noise, the closed-orbit search ends within its iteration limit and either yields results or raises a documented error; exceptions of the tracker reach the caller. Every yielded result consists of points taken from the tracker's outputs in the documented plane, with a centre computed from them. For a stable linear map the search converges to the fixed point from any nearby seed, and a scan over a grid of seeds tries each point of the grid from start to end once.",
  ["fault_sequences", "inputs", "histories"],
  "Every generated linear map and every sequence of tracker outcomes: full output, early loss, empty output, exceptions, repeated points.",
  "Existing tests use one well-behaved map; the ending conditions depend on what the tracker does.",
  ["xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py"], "generator that tracks, fits an ellipse, and moves to its centre")
prop("O02", "Tune calculators use exactly the data of their latest tracking",
  "After any history of trackings and calculations, by any number of users and calculators, the data of a tune calculator are the coordinates in the chosen axes of the particles that its latest successful tracking returned (all of them, or those chosen by number), in their order, or else the lists it was given; the particle that is tracked is the reference displaced by the given amounts. The tune, its error and the phase advances or the spectrum are those that a new calculator gives for the same data, and asking again gives the same; phase advances are those between successive points around the ellipse through the points, and their mean is the tune. Errors of the tracker, of the peak finder, and a missing data set reach the caller as errors and leave earlier data as they were. The reference particle and the caller's lists are not changed.",
  ["histories", "fault_sequences", "schedules"],
  "Every history of trackings, failed trackings and calculations on several calculators that share trackers and peak finders which lose particles, fail or return noise.",
  "Existing tests use each calculator once, with one well-behaved tracker.",
  ["xboa/algorithms/tune/_dphi_tune.py", "xboa/algorithms/tune/_fft_tune.py"], "calculators that keep data, fitted ellipse, phase advances and spectrum between calls")
prop("O03", "Searches for roots and ellipses use only what their caller gave",
  "A search for a root asks for values of the function that its own caller gave, and of no other, whatever other searches go on at the same time, in other threads or inside that function; it starts where it was told, ends within its limit of iterations, and leaves the caller's lists alone. An exception of the function reaches the caller. For a linear function with an invertible matrix the result is the root, and the same search gives the same result again. Fitting an ellipse to points leaves points and weights alone, is repeatable, and, once another iteration does not change it, gives the weighted mean and covariances of exactly the points within the cut (of all points if none is cut).",
  ["schedules", "fault_sequences", "inputs"],
  "Every interleaving and nesting of searches by several users, with functions that fail, return no numbers or search for roots themselves.",
  "Existing tests run one search of one function.",
  ["xboa/common/_common.py"], "iterations that call back into the user's code")
# -------------------------------------------------- outside this technique
prop("N01", "Ellipses and emittances behave under symplectic maps as theory says",
  "An ellipse built from given lattice functions, emittance and momentum has these lattice functions and this emittance, and emittances of a group of particles are invariant under every symplectic map in the variables chosen.",
  ["inputs"], "Every set of lattice functions and every symplectic map.",
  "Existing tests check a few ellipses.",
  [BP], "closed-form arithmetic on one thread without I/O")
prop("N02", "Relativistic mass-shell and derived coordinates are consistent",
  "For every particle the derived quantities (kinetic energy, momentum components, angles, radii, speeds) agree with their definitions, and setting a derived quantity that is settable makes it read back; restoring the mass-shell condition leaves the other stored coordinates alone.",
  ["inputs"], "Every physical coordinate vector and every settable variable.",
  "Existing tests sample a few coordinate vectors.",
  [HP, "xboa/core/cpplib/Hitcore.cc"], "pure functions of one record")
prop("N03", "Peak finding, smoothing and tune algorithms recover the signal",
  "For every signal with well separated peaks the peak finders return each of them once, smoothing preserves constant signals and lengths, and the tune calculators recover the rotation frequency of a pure oscillation to their stated precision.",
  ["inputs"], "Every generated signal and parameter setting.",
  "Existing tests use a few synthetic signals.",
  ["xboa/algorithms/peak_finder/", "xboa/algorithms/smoothing/", "xboa/algorithms/tune/"], "pure numerical routines")
prop("N04", "Generated grids and shells of particles are complete",
  "Generated grids and shells of particles contain each requested point once, and shells lie on the ellipse that was asked for.",
  ["inputs"], "Every ellipse, dimension and number of points.",
  "Existing tests use small fixed cases.",
  [CM, BP], "pure array routines")
prop("N05", "Tile-based reweighting approaches the target distribution",
  "For a well populated group the weighted distribution after tile-based reweighting approaches the target Gaussian as the number of particles grows, in means, covariances and density.",
  ["inputs"], "Every particle distribution and target.",
  "Existing tests use a few Gaussian samples.",
  ["xboa/bunch/weighting/_voronoi_weighting.py"], "a statistical limit in the number of particles; S06 and P03 decide the weights themselves")
prop("N06", "Transfer-matrix fits and decoupling reproduce their maps",
  "Fitting a transfer map to particles tracked through it recovers that map, and decoupling a stable symplectic matrix gives block-diagonal form with the same eigenvalues.",
  ["inputs"], "Every stable transfer matrix and seed set.",
  "Existing tests check a few matrices.",
  ["xboa/algorithms/decoupled_transfer_matrix.py", "xboa/algorithms/closed_orbit/"], "pure linear algebra")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import re
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = len(re.findall(r"\.(\s|$)", p["statement"]))
    if n > 3: print("sentences", p["id"], n)
