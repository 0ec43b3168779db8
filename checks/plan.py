"""How much each check runs and what it covers; read without importing xboa."""

PLAN = {}
NOTES = {}
FAKE_ROOT = ("F08",)       # these see sim/fakeroot.py in place of the ROOT library


def plan(prop, quick, thorough, rule, real, stubs, assumptions):
    PLAN[prop] = {"quick": quick, "thorough": thorough, "rule": rule, "real": real,
                  "stubs": stubs, "assumptions": assumptions}


OS = "kernel processes, signals, waitpid, clocks and files: the simulator's"
TRK = ["xboa.tracking (all modules)", "xboa_tracking_process.py run as the program "
       "of each simulated job process with its own copy of xboa.tracking",
       "xboa.hit, xboa.core (C++)", "pickle, subprocess.check_output/call, io "
       "buffering and text layers of the standard library"]
BASE = ["a call of the library that blocks does so only in the seams listed in "
        "DESIGN.md; there is no preemption inside C code",
        "simulated programs share loaded C++ code and all modules but "
        "xboa.tracking; the global weight table is private to each process"]

plan("T01", (4000, 40), (60000, 600),
     "A run tracks one to three lists of 0 to 12 hits with a random tracker over 1 to "
     "8 simulated job processes; non-trivial: more than two task switches.",
     TRK, [OS], BASE)
plan("T02", (6000, 40), (80000, 600),
     "A run makes one to three distributed or single-job calls while operations of the "
     "caller and the workers fail, workers are killed at any step, trackers raise and "
     "result files are lost or cut; then one more call without faults. Non-trivial: "
     "at least one fault was injected.",
     TRK, [OS], BASE + ["damage to a result file means a lost or cut file; a bit flip "
                        "inside the pickle is not detectable by design"])
plan("T03", (6000, 40), (80000, 600),
     "A run is a history of 3 to 12 operations on one job (set the list, start, wait, "
     "collect, kill, terminate, copy) under faults and external kills. Non-trivial: the "
     "job was started more than once.",
     TRK, [OS], BASE + ["the list is not set while a worker is running"])
plan("T04", (6000, 40), (80000, 600),
     "A run is a history of 3 to 14 lifecycle calls on one or two jobs whose workers "
     "end, fail, are killed, ignore SIGTERM or receive signals late; every report is "
     "compared to the simulated kernel's process table. Non-trivial: more than one "
     "worker was launched.",
     TRK, [OS], BASE)
plan("T05", (6000, 40), (80000, 600),
     "A run makes one to five waiting calls with random limits on a job with a random "
     "length, or one distributed call, while the wall clock jumps, workers hang, ignore "
     "SIGTERM or are killed. Non-trivial: a job was waited for.",
     TRK, [OS], BASE + ["'soon' is 4 simulated seconds, at 0.1 to 5 ms per step"])
plan("T06", (4000, 40), (60000, 600),
     "A run has one to three client programs with private copies of xboa.tracking which "
     "create, run, distribute and kill jobs in the same directory with few temporary "
     "names and process numbers. Non-trivial: several programs that took turns.",
     TRK, [OS], BASE)
plan("T07", (6000, 40), (80000, 600),
     "A run has one or two saver programs that save lists of 0 to 5 particles in one to "
     "four steps and are killed or meet disk faults at any step, and loaders during and "
     "after; saves are also cut by hand. Non-trivial: a save was attempted.",
     TRK, [OS], BASE + ["after a save that raised an error, loading may give the new "
                        "list, the old one, or an error"])
plan("T09", (6000, 40), (80000, 600),
     "A run has one to three program sessions that track lists of particles through a "
     "simulation that may fail or answer badly, save and restore their trackers, and are "
     "killed or meet disk errors at any step. Non-trivial: more than one tracking call.",
     ["xboa.tracking.MAUSTracking", "xboa.hit, xboa.core (C++)", "pickle, json"],
     [OS, "maus_cpp (Geant4 simulation): a deterministic stub that answers from the seed"],
     BASE + ["a saved tracker and its original are not both used afterwards"])
plan("T08", (4000, 40), (60000, 600),
     "A run is a history of 3 to 12 calls on one or two batch jobs in a simulated queue "
     "where jobs wait, are suspended, unknown, run, end, fail or are killed, and whose "
     "commands may fail; every answer is compared to the queue's own state. "
     "Non-trivial: a job was submitted.",
     TRK, [OS, "bsub, bjobs, bkill and the queue behind them: a model of LSF"], BASE)

PAR = ["xboa.common (all of it)", "pickle of functions, arguments and results"]
plan("P01", (6000, 40), (80000, 600),
     "A run has one to three programs that make one to three calls each with 0 to 13 "
     "arguments on 0 to 9 processes; calls take different times, return all kinds of "
     "values or raise; helper processes cannot be created, functions and arguments "
     "cannot be sent. Non-trivial: a call with more than one argument was run.",
     PAR, [OS, "multiprocessing Pool, Manager and Queue: simulated processes that take "
           "tasks in any order"],
     BASE + ["helper processes are not killed from outside: the standard library's pool "
             "waits for ever then"])
plan("P02", (6000, 40), (80000, 600),
     "A run has one or two programs with private copies of xboa.common that do 1 to 9 "
     "steps (launch, wait, collect, kill all, look, and processes of other origin) with "
     "launch failures and reused process numbers, and then exit. Non-trivial: more than "
     "one launch.",
     PAR, [OS, "multiprocessing.Process, os.fork (the child repeats the library call)",
           "interpreter exit: the exit functions in their registered order, then "
           "multiprocessing's wait for its processes"],
     BASE + ["background functions do not ignore SIGTERM",
             "the number of a process that was forked by hand and collected by the caller "
             "is not given to another child of the same program: the library hands out "
             "bare numbers, so neither side could tell"])
plan("P03", (4000, 40), (60000, 600),
     "A run has one or two programs that calculate tiles of generated tessellations in 2 "
     "and 3 dimensions, whole, in part or spoilt, and Voronoi weights, with 0 to 7 "
     "processes that may fail to start. Non-trivial: more than one tile.",
     ["xboa.bunch.weighting", "xboa.bunch, xboa.hit, xboa.core (C++)", "scipy.spatial"],
     [OS, "multiprocessing.Pool: simulated processes that take tasks in any order"],
     BASE + ["helper processes are not killed from outside"])

FILES = ["xboa.hit with its factories, xboa.bunch, xboa.core (C++)",
         "io text and buffering layers, glob, json of the standard library"]
FBASE = ["the files are UTF-8 text, as the library opens them under a UTF-8 locale"]
plan("F01", (5000, 45), (60000, 600),
     "A run has one to three clients, threads of one program or programs, that write 0 "
     "to 60 generated particles to one to three files in a built-in format or in columns "
     "of their own and read them back in one of seven ways, while every read and write "
     "may be split; the files are also decoded independently. Non-trivial: more than one "
     "round trip.",
     FILES, [OS], BASE + FBASE + [
         "comments have one line and name no unit; separators are blanks"])
plan("F02", (10000, 45), (80000, 600),
     "A run has one or two clients that make one to four writes each, in every format and "
     "from every interface, while opening, writing and closing fail, the disk is full for "
     "ever or writes are short or torn, and then one write without faults. After a normal "
     "return the file, as the kernel has it, is decoded independently. Non-trivial: at "
     "least one fault was injected.",
     FILES, [OS], BASE + FBASE + [
         "for the interfaces that take the caller's handle, the caller closes it"])
plan("F03", (6000, 45), (60000, 600),
     "A run has one or two threads that write the same one to seven particles in every "
     "format and from every interface, and up to two that watch them; files, handles, "
     "comparisons and formats fail, writers are interrupted, and threads are preempted at "
     "any line of the library. Non-trivial: more than six task switches.",
     FILES, [OS], BASE + FBASE)
plan("F04", (12000, 45), (80000, 600),
     "A run has one or two files in a text format, rendered independently and cut at any "
     "byte or left behind by a library writer that was killed, which one or two clients "
     "read in eight ways while opening and reading fail. Non-trivial: a file was cut or a "
     "fault was injected.",
     FILES, [OS], BASE + FBASE + [
         "errors while listing a directory for a name pattern are not included: the "
         "standard library's glob treats them as an empty directory"])
plan("F05", (6000, 45), (80000, 600),
     "A run has up to eight files in one directory that lists its names in any order, and "
     "one or two files in columns, from which one to three clients read with name "
     "patterns, limits and acceptance tests (also ones that count or raise) through the "
     "eager, grouping and lazy interfaces. Non-trivial: more than one read.",
     FILES, [OS], BASE + FBASE)
plan("F06", (12000, 40), (100000, 600),
     "A run has one to three templates with any line ends, from which one to three clients "
     "make one to three files each, some in place, with keywords and values that are words, "
     "numbers or objects; opening, reading, writing and closing fail, the disk fills up, "
     "reads and writes are split, an input is missing or a value has no text; the file is "
     "judged as the kernel has it when the call returns. Non-trivial: a fault was injected "
     "or more than two substitutions were made.",
     ["xboa.common.substitute", "io text and buffering layers of the standard library"],
     [OS], BASE + FBASE + [
         "the result does not depend on the order of the keywords, and these have no line "
         "breaks"])
plan("F07", (8000, 45), (80000, 600),
     "A run has one to four files of spill documents, rendered independently, with empty "
     "spills, events of other kinds, fields in any order, and lines that are cut or spoilt, "
     "from which one to three clients read with name patterns, limits, acceptance tests "
     "and lists of types, at once and one by one, while opening and reading fail; and files "
     "that the library has written. Non-trivial: more than one read.",
     FILES, [OS, "the MAUS library that reads ROOT files: absent"], BASE + FBASE + [
         "a document that is valid json holds particles with all of their fields, or none"])
plan("F08", (6000, 45), (80000, 600),
     "A run has one to four files of spills with simulated and reconstructed events, also "
     "empty ones, without the tree, or with an entry that cannot be read, from which one to "
     "three clients read with name patterns, limits, acceptance tests and lists of kinds, "
     "at once, entry by entry and from several readers at a time, also going on after an "
     "error, while opening and reading fail. Non-trivial: more than one read.",
     FILES, [OS, "the ROOT library and the classes of MAUS: sim/fakeroot.py, which fails "
             "as ROOT 6 does"], BASE + FBASE + [
         "one tree is used by one thread", "acceptance tests do not raise BadEventError or "
         "EOFError, by which the readers themselves end"])

STATE = ["xboa.hit, xboa.bunch, xboa.core (C++), rebuilt from the working tree"]
plan("S01", (16000, 45), (80000, 600),
     "A run has one to three programs, one after another or at once, each with one to three "
     "clients that share particle records, groups and weight tables and make 3 to 14 "
     "operations each; programs are killed and saved records restored elsewhere; or clients "
     "of one program that have different particles and are preempted at any line of the "
     "library. After every operation the weights of all particles in all tables and all "
     "records are compared to the model. Non-trivial: several kinds of operations that move "
     "weights were done.",
     STATE, [OS], BASE)
plan("S02", (8000, 45), (80000, 600),
     "A run has one to three clients that make 3 to 16 operations each on up to four groups "
     "that share particles: append, replace, delete and read by position and slice, copy, "
     "split, choose, keep moments in store, change and destroy particles; positions out of "
     "range, wrong types and callbacks that raise. After every operation every group is "
     "compared to its list, and moments of random variables to sums over the list. "
     "Non-trivial: more than two kinds of operations that change groups were done.",
     STATE, [OS], BASE + ["moments are judged to 1e-9 of the sum of the sizes of their "
                          "terms, and only where the total weight is above 1e-6"])
plan("S03", (20000, 45), (80000, 600),
     "A run has one to three clients that make 3 to 12 operations each on groups that share "
     "particles: cuts of one or both weights on one to three variables, in units or in "
     "standard deviations, transmission cuts and conditional removals, with comparisons that "
     "raise, that let other clients run, or that make further operations; weights are set and "
     "cleared in between; or clients with different particles are preempted at any line of "
     "the library. After every operation all weights and coordinates are compared to the "
     "model, and totals and means to sums over it. Non-trivial: at least two kinds of cuts.",
     STATE, [OS], BASE + ["which particles a cut reaches is left open when particles are "
                          "put into or taken out of the group meanwhile", "comparisons return True or False, or fail"])
plan("S04", (30000, 45), (80000, 600),
     "A run has one to three programs with one to three clients that share weight tables, "
     "and make 3 to 14 operations each: expressions of one to seven operations on tables and "
     "numbers, also ones that let other clients run or change the operands while they are "
     "converted, operations that cannot work, and in between weights and defaults are set, "
     "tables cleared, switched and destroyed; programs are killed. Every result is compared "
     "to the operation on each particle's values, and after every operation all tables and "
     "records to the model. Non-trivial: at least one table was computed.",
     STATE, [OS], BASE + ["results are judged to 1e-12 of the sum of the sizes of the "
                          "operands for sums and differences, of the result for products "
                          "and quotients"])
plan("S05", (12000, 45), (60000, 600),
     "A run has one to three clients that make 2 to 9 operations each on up to four groups: "
     "emittances, lattice functions, amplitudes, dispersions, angular momenta, moments, lists, "
     "tables and histograms, with both kinds of momenta, with moments in store or given, and "
     "translations, periodic, linear and shaping transformations, among changes of particles, "
     "groups and of the kind of momenta, also with wrong names; or clients with different "
     "particles are preempted at any line of the library. Every answer is compared to that of "
     "a new group of the same particles and to its definition, and after every operation all "
     "particles to the model. Non-trivial: at least two kinds of queries or transformations.",
     STATE, [OS], BASE + ["answers are compared to definitions where the moments are far from "
                          "singular, to 1e-6", "all particles of a group have one mass"])
plan("O01", (12000, 45), (60000, 600),
     "A run has one to three clients that search closed orbits at once, step by step, "
     "check and scan them, with one tracker or one each: linear maps, also through the "
     "matrix tracker of the library, that lose particles early or at once, return nothing, "
     "one point again and again, noise, infinite, undefined or huge numbers, raise errors "
     "of any kind, or let other clients run. Every call of the tracker and its output are "
     "recorded, and compared to what the search yields. Non-trivial: there were results.",
     ["xboa.algorithms.closed_orbit, xboa.common.fit_ellipse, xboa.tracking.MatrixTracking, "
      "xboa.hit, xboa.core (C++), rebuilt from the working tree"],
     ["tracking codes: linear maps with faults"], BASE + [
         "a tracker that raises StopIteration is not included"])
plan("O02", (16000, 45), (100000, 600),
     "A run has one to three clients with up to two tune calculators each, of both kinds, "
     "given lists or tracking through shared trackers, which lose particles, fail, return "
     "noise, infinite or huge numbers, or let other clients run; peak finders that fail or "
     "find nothing; calculators are copied and asked again. The data are compared to the "
     "recorded output of the tracker, and every answer to that of a new calculator and, for "
     "phase advances, to a calculation of the harness. Non-trivial: more than one answer.",
     ["xboa.algorithms.tune, xboa.algorithms.peak_finder, xboa.common.fit_ellipse, "
      "xboa.tracking.MatrixTracking, xboa.hit, xboa.core (C++)"],
     ["tracking codes: linear maps with faults"], BASE + [
         "whether the spectrum's peak is the right tune is not judged (see N03)"])
plan("S07", (3000, 45), (60000, 600),
     "A run makes a few particle records, groups and weight tables in a process of its own and "
     "does one to six operations on them: queries, changes, refused calls of all kinds, calls "
     "with callbacks that fail or change the group, and calls that need more memory than the "
     "C++ library gets. Each is repeated with the first, second, third... allocation of Python "
     "objects failing (one, two, three at a time, or all from there on), until it succeeds. "
     "After each try the contents are those from before or those the operation leads to; "
     "answers are compared to those without faults; references to every argument are counted; "
     "objects and bytes in use are compared over further repetitions with and without faults. "
     "Non-trivial: all.",
     ["xboa.core (C++): Hitcore, Bunchcore, WeightContext, converters, rebuilt from the "
      "working tree"],
     ["the allocators of Python objects (fail when told), address space of the process "
      "(limited)"], BASE + [
         "allocations of the C++ library fail only where they are huge"])
plan("O03", (16000, 45), (100000, 600),
     "A run has one to three users who search for roots of linear, curved, flat or noisy "
     "functions of one to three coordinates, point by point or in batches, or fit ellipses to "
     "points with and without weights and cuts. Functions raise, return values that are no "
     "numbers, let other users run, or search for the root of another function themselves; "
     "half of the runs switch users at any line of the library. Every function checks that "
     "it is asked by its own search only; results are compared to known roots, to moments of "
     "the points inside, and to the same search done again. Non-trivial: at least one result.",
     ["xboa.common (nd_newton_raphson1, nd_newton_raphson2, fit_ellipse)"],
     ["functions of the caller: scripted, with faults"], BASE)
plan("S06", (6000, 45), (60000, 600),
     "A run has one to three users with groups of 0 to 35 particles, copies of them, and "
     "one or more polynomial and tile-based weightings, which they apply to local and global "
     "weights in any order, give other targets (some of which must be refused), and apply to "
     "groups with singular moments, weights of 0 or coordinates that are no numbers; half of "
     "the runs switch users at any line of the library. Compared: the weights with those of "
     "an independent solution for the targets, or with target density times tile content; "
     "moments after weighting with the targets; every other weight and coordinate of every "
     "group with what it was. Non-trivial: at least one result could be predicted.",
     ["xboa.bunch.weighting", "xboa.bunch", "xboa.hit", "xboa.core (C++)",
      "multiprocessing.Pool over simulated processes"], [OS], BASE + [
         "scipy's Voronoi and ConvexHull give the tiles",
         "singular or nearly singular moments: only what must stay is compared"])
