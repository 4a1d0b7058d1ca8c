PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe))


prop("C01", "Evaluation counters equal the number of evaluations requested",
     "For every problem, the number of evaluations (and of constraint evaluations) reported to the user equals the "
     "number of objective (constraint) evaluations the user requested at finite points since the problem was created; "
     "points with a non-finite coordinate are rejected without being counted, and nothing else ever changes, resets or "
     "skips a count (feasibility checks, for instance, do not count). An observer's own evaluation count advances by exactly one per observed evaluation, too.",
     ["inputs", "histories"],
     "every sequence of evaluations, constraint evaluations, feasibility queries, recommendations and restarts, every x",
     "Tests call evaluate a handful of times with finite vectors on a few problems; a path that counts twice or not at "
     "all for a special vector, a special suite or inside a helper is not sampled.",
     ["src/coco_problem.c", "src/coco_suite.c", "src/logger_bbob.c", "src/logger_bbob_old.c", "src/logger_biobj.c",
      "src/logger_rw.c", "src/logger_toy.c"],
     [("counter increments in the evaluation entries", "src/coco_problem.c:coco_evaluate_function, "
       "coco_evaluate_constraint"), ("counter getters", "src/coco_problem.c:coco_problem_get_evaluations")],
     ["coco_problem_get_evaluations", "coco_problem_get_evaluations_constraints", "evaluation numbers in result files"])

prop("C02", "Wrapped problems are evaluated exactly once per evaluation",
     "Evaluating a composed problem (transformed, stacked, normalised, noisy, observed) at a finite point evaluates "
     "each wrapped problem exactly once and delivers its result in the caller's output vector, on every path. When a "
     "layer intercepts a point (for instance one containing NaN) instead of delegating, it defines every output value "
     "itself.",
     ["inputs", "configurations"],
     "every problem of every suite, every decision vector, every stacking of transformations",
     "A skipped or doubled inner evaluation changes counts, logs and best values only on particular branches; the "
     "tests compare end values for a few points.",
     ["src/coco_problem.c", "src/transform_*.c", "src/suite_*.c", "src/logger_*.c"],
     [("wrapper evaluation functions", "src/transform_*.c, src/coco_problem.c:coco_problem_stacked_*")],
     ["coco_evaluate_function output vector", "observer log files"])

prop("C05", "Non-finite decision vectors never reach the benchmark functions",
     "Evaluating objectives or constraints at a vector with an infinite coordinate yields +infinity in every output; "
     "with a NaN coordinate (and no infinite one) it yields NaN in every output; in neither case is the benchmark "
     "function evaluated. Such a point is never reported as feasible.",
     ["inputs"],
     "every decision vector with a non-finite coordinate at any position, every problem",
     "The position of the coordinate, the problem and the kind of non-finite value are unbounded; tests use one "
     "position of a few problems.",
     ["src/coco_problem.c", "src/coco_suite.c", "src/coco_utilities.c"],
     [("vector screening before dispatch", "src/coco_problem.c:coco_evaluate_function, coco_evaluate_constraint, "
       "coco_is_feasible")],
     ["output vectors of coco_evaluate_function/coco_evaluate_constraint", "coco_problem_get_best_observed_fvalue1"])

prop("C06", "The best observed value is exactly the best feasible value seen",
     "After every evaluation the reported best observed value is the minimum over all feasible points evaluated so "
     "far, it never increases, the reported evaluation number is the one at which it was attained, and the final "
     "target is reported as hit exactly when that value reaches the target. Infeasible points never improve it.",
     ["histories", "inputs"],
     "every sequence of evaluations on every problem, constrained or not",
     "Needs all orders of feasible and infeasible improvements; tests only look at monotone runs on unconstrained "
     "problems.",
     ["src/coco_problem.c", "src/coco_suite.c", "src/coco_utilities.c"],
     [("best-observed record", "src/coco_problem.c:coco_evaluate_function"),
      ("feasibility predicate", "src/coco_problem.c:coco_is_feasible"),
      ("target predicate", "src/coco_problem.c:coco_problem_final_target_hit")],
     ["coco_problem_get_best_observed_fvalue1", "coco_problem_final_target_hit"])

prop("C03", "Inputs the caller passes as read-only stay untouched and are not retained",
     "No public function, and no callback reached through a problem, observer or suite, ever writes through, frees or "
     "keeps a pointer to data it takes as const (decision vectors, strings, option texts, instances): after the call "
     "the caller's data are unchanged and the caller may reuse or release them.",
     ["inputs", "configurations"],
     "every const parameter of every public function and every function reachable through a function pointer",
     "A cast in one of a hundred evaluation routines modifies the vector only in certain branches (clipping, "
     "repairing); tests never compare their inputs before and after.",
     ["src/coco.h", "src/coco_internal.h", "src/coco_problem.c", "src/coco_observer.c", "src/coco_suite.c", "src/f_*.c",
      "src/transform_*.c", "src/logger_*.c"],
     [("const parameters of the API and the callback types", "src/coco.h, src/coco_internal.h")],
     ["contents of the caller's vectors and strings after the call"])

prop("C04", "A noise-free evaluation depends only on the problem and the point",
     "The values a problem returns at a point are the same whatever was evaluated before, in whatever order and "
     "however often: evaluation carries no state from one call to the next (work buffers are completely rewritten "
     "before they are read; no counters, static caches or earlier results enter the value).",
     ["histories", "inputs"],
     "every history of evaluations before the call, every point, every problem of every suite",
     "A stale buffer entry only shows for particular sequences of points; the tests compare single evaluations with "
     "stored values.",
     ["src/f_*.c", "src/transform_*.c", "src/c_linear.c", "src/coco_problem.c", "src/suite_*.c"],
     [("evaluation callbacks and their work buffers", "src/f_*.c, src/transform_*.c")],
     ["output of coco_evaluate_function / coco_evaluate_constraint"])

prop("C07", "Freeing an object releases everything it owns exactly once",
     "When a problem, suite, observer, archive or logger is freed, everything the library allocated or opened for it "
     "(vectors, matrices, names, wrapped problems, transformation data, log files) is released exactly once, whatever "
     "its kind, options and history; and nothing an object owns is lost earlier by being overwritten.",
     ["histories", "configurations"],
     "every kind of object, every destructor path, every sequence of updates before the release",
     "A missing release does not change any tested output; it exhausts memory or file handles in a full experiment "
     "with thousands of problems, or leaves log files unflushed.",
     ["src/coco_problem.c", "src/coco_suite.c", "src/coco_observer.c", "src/coco_archive.c", "src/transform_*.c",
      "src/f_*.c", "src/logger_*.c", "src/observer_*.c", "src/suite_*.c"],
     [("destructors", "src/coco_problem.c:coco_problem_free, src/coco_suite.c:coco_suite_free, "
       "src/coco_observer.c:coco_observer_free, *_free callbacks")],
     ["memory and open files after coco_problem_free, coco_suite_free, coco_observer_free, coco_archive_free"])

prop("C08", "No call leaks memory or files on any return path",
     "Every object a library function obtains (memory, strings, files, problems) is, on every path on which the "
     "function returns, released, returned, stored in an object that owns it, or handed to a function that takes it "
     "over - including the paths that reject invalid options, missing keys or infeasible points.",
     ["inputs", "faults"],
     "every return path of every function that obtains memory or opens a file",
     "Error paths are hardly exercised by tests, and a leak on them has no visible output.",
     ["src/*.c"],
     [("allocation functions", "src/coco_utilities.c, src/coco_string.c")],
     ["memory growth of a long experiment"])

prop("C09", "Released memory is never used again",
     "After the library has released an object it neither reads nor writes it, passes it on, nor releases it a second "
     "time, whatever the order in which problems, suites and observers are created, observed and freed and whichever "
     "points are dominated or infeasible.",
     ["histories", "inputs"],
     "every path of every function that releases memory or closes a file",
     "A use after release often happens to work in a test run; it needs a particular order of events to corrupt data.",
     ["src/*.c"],
     [("release sites", "src/*.c")],
     ["crashes or corrupted values"])

prop("C10", "Every field of an object is set before it is used",
     "No decision of the library depends on memory it never set: when the function that creates a problem, suite, "
     "observer, logger, archive or transformation object returns, every field of it that the library reads has been "
     "given a value, whatever options and problem kind the object was created with.",
     ["configurations", "histories"],
     "every field of every heap object, every creation path, every later read",
     "Fresh memory is usually zero in a short test process, so a forgotten initialisation only shows in a long run "
     "with a recycled heap.",
     ["src/*.c"],
     [("constructors of the library's objects", "src/coco_problem.c, src/coco_suite.c, src/coco_observer.c, "
       "src/coco_archive.c, src/logger_*.c, src/observer_*.c, src/transform_*.c, src/f_*.c")],
     ["log files, problem values and flags on a heap with recycled memory"])

prop("C17", "Text is never interpreted as a format, and formats match their data",
     "Whatever names, option texts and paths the user supplies, the library prints and parses them literally: no text "
     "that is not a literal of the source reaches a printf- or scanf-family function as its format, and every "
     "conversion gets an argument of the type it expects (no missing, surplus or wrongly sized value in any message "
     "or log line).",
     ["inputs", "configurations"],
     "every formatted output and input call, every text it may be given as format",
     "A percent sign in an algorithm name or option occurs in no test, and a wrongly sized argument often prints "
     "correctly by luck of the calling convention.",
     ["src/*.c"],
     [("formatting wrappers", "src/coco_string.c:coco_strdupf, src/coco_runtime_c.c:coco_error, "
       "src/coco_problem.c:coco_problem_set_id")],
     ["messages, problem ids and names, log files"])

prop("C21", "Assertions and verbosity never change results",
     "What the library computes and writes does not depend on diagnostics: builds with and without assertions (NDEBUG) "
     "do the same apart from aborting when an assertion fails, and the log level only decides which messages appear "
     "on the console, never values, log files, counters or control flow of an experiment.",
     ["configurations", "inputs"],
     "every assertion, every piece of code guarded by the log level, both build modes",
     "The tests run one build mode with one log level; an effect hidden in an assertion or a verbose branch appears "
     "only in the other configuration.",
     ["src/*.c"],
     [("assertions", "src/*.c"), ("log level", "src/coco_utilities.c:coco_set_log_level, src/coco_runtime_c.c")],
     ["results of a run with another log level or build mode"])

prop("C22", "The same suite, instance and index always denote the same problem",
     "A problem is determined by suite name, instance specification, options and index (function, dimension, instance) "
     "alone: creating it never depends on the clock, the environment, addresses, process-wide random state, static variables left "
     "over from earlier calls or on how far the suite has been iterated.",
     ["histories", "schedules"],
     "every order of creating suites and problems, every time and process",
     "Tests create problems in a fixed order in a fresh process; a hidden dependence on earlier calls needs a "
     "particular order.",
     ["src/coco_suite.c", "src/suite_*.c", "src/f_*.c", "src/transform_*.c", "src/coco_random.c"],
     [("problem construction", "src/coco_suite.c:coco_suite_get_problem, src/suite_*.c"),
      ("static data of the permutation helpers", "src/transform_vars_permutation_helpers.c")],
     ["values of a problem created after other problems or in another process"])

prop("C11", "Every problem a suite announces exists and is its own",
     "For every suite name the library accepts, each announced combination of function, dimension and default instance "
     "can be created: creation never ends in an 'unknown suite', 'function does not exist' or 'year not defined' error "
     "or without a problem, the dimensions are listed in increasing order, default instances are well-formed ranges, and "
     "no two function numbers of a suite are built by the same constructors with the same parameters.",
     ["configurations", "inputs"],
     "every suite name, function number, dimension and default instance",
     "There are thousands of combinations across the suites; the tests create only a handful of problems of a few "
     "suites.",
     ["src/coco_suite.c", "src/suite_*.c"],
     [("suite dispatch", "src/coco_suite.c:coco_suite_intialize, coco_suite_get_problem_from_indices, "
       "coco_suite_get_instances_by_year"), ("problem constructors", "src/suite_*.c")],
     ["coco_suite_get_problem for every index of every suite"])

prop("C12", "Function, dimension, instance and problem numbers are never mixed up",
     "The numbers that identify a problem keep their meaning everywhere: function numbers, dimensions, instance numbers, "
     "their positions in the suite's lists, problem indices, the numbers of objectives and constraints and the two "
     "evaluation counters are never passed, stored, compared or printed in place of one another, so ids (f.._i.._d..), "
     "metadata getters, log and info files and archives name the function, instance and dimension that was evaluated.",
     ["configurations", "inputs"],
     "every call, assignment, comparison, list access and formatted output with such a number, every suite and logger",
     "Positions and numbers coincide for the default ranges starting at 1 that tests use; swapped values only show for "
     "selected instances, functions or dimensions.",
     ["src/coco_suite.c", "src/suite_*.c", "src/logger_*.c", "src/f_*.c", "src/coco_archive.c"],
     [("problem identity", "src/suite_*.c:suite_*_get_problem"), ("lookups", "src/coco_suite.c"),
      ("log headers", "src/logger_bbob.c, src/logger_bbob_old.c, src/logger_biobj.c")],
     ["problem ids, suite_dep getters, headers of log files"])

prop("C13", "Problem indices and (function, dimension, instance) correspond one to one",
     "coco_suite_encode_problem_index and coco_suite_decode_problem_index are inverse to each other on all valid values; "
     "indices outside the suite are rejected before any list is read and every output is set; a problem carries the "
     "function, instance and index it was asked for under; iterating the suite visits instances, then functions, then "
     "dimensions, ends exactly when all are exhausted, and skips nothing; coco_suite_get_number_of_problems is the "
     "product of the three list lengths.",
     ["configurations", "inputs"],
     "every index, every list lengths, every position of the iteration",
     "Mixed-radix arithmetic with a wrong factor still agrees for small indices or suites where two lists have the same "
     "length; tests use a few suites.",
     ["src/coco_suite.c", "src/suite_*.c"],
     [("index arithmetic", "src/coco_suite.c:coco_suite_encode_problem_index, coco_suite_decode_problem_index"),
      ("iteration", "src/coco_suite.c:coco_suite_get_next_problem, coco_suite_is_next_*"),
      ("identity", "src/suite_*.c:suite_*_get_problem")],
     ["coco_suite_get_problem(i), coco_problem_get_suite_dep_index, coco_suite_get_next_problem"])

prop("C27", "A suite holds exactly the items its lists and filters name",
     "A suite is created with every function, dimension and instance it is given, in the given order, functions being "
     "numbered from 1 (noisy: 101). A filter option drops a function, dimension or instance if and only if it is not "
     "among the numbers given: function_indices, dimension_indices and instance_indices name positions from 1 on in "
     "their own list, dimensions names values; the order and multiplicity of the given numbers make no difference. A "
     "list of ranges denotes every number of every range up to its last, clipped to the limits of the list it filters; "
     "'-n' starts at the lower limit, 'n-' ends at the upper one; numbers read before an unusable range are kept; a list "
     "that is returned is never empty, holds at most the given capacity and always carries its end mark.",
     ["configurations", "inputs"],
     "every list of numbers, every suite, every order of the ranges",
     "Tests filter with a few short ascending lists; a filter that goes wrong for unsorted, overlapping, single or last "
     "entries silently benchmarks other problems than those asked for.",
     ["src/coco_suite.c", "src/coco_string.c", "src/coco_utilities.c"],
     [("filters", "src/coco_suite.c:coco_suite_filter_indices, coco_suite_filter_dimensions"),
      ("lists", "src/coco_suite.c:coco_suite_allocate, coco_suite_set_instance; src/coco_utilities.c:coco_count_numbers"),
      ("ranges", "src/coco_string.c:coco_string_parse_ranges"),
      ("options", "src/coco_suite.c:coco_suite")],
     ["coco_suite(name, instance, options) and the problems it then yields"])

prop("C14", "Every option is recognised, validated, stored under its name and defaulted",
     "Each key an options text (suite, observer or logger options) is searched for is among the keys announced as valid and "
     "vice versa; its value ends up in the setting of the same name and that setting influences something; an absent "
     "option leaves its setting at its default; an unusable value (a precision outside 1..32, a log_discrete_as_int other "
     "than 0 or 1, fewer than 4 evaluation triggers, a target precision that is not positive) is never used but replaced "
     "by that same default; where an option stands in the text, even at its very start, makes no difference, except that of "
     "'dimensions' and 'dimension_indices' exactly the one given first counts.",
     ["inputs", "configurations"],
     "every options text: any subset, order and values of the keys",
     "Tests pass one or two options at a time with usable values; a setting exchanged for another one or an unchecked value "
     "needs a specific option.",
     ["src/coco_observer.c", "src/observer_*.c", "src/coco_suite.c", "src/coco_utilities.c"],
     [("observer options", "src/coco_observer.c:coco_observer, coco_observer_allocate; src/observer_*.c"),
      ("suite options", "src/coco_suite.c:coco_suite, coco_suite_intialize"),
      ("lookup", "src/coco_utilities.c:coco_options_read*")],
     ["warnings about unknown options", "precision and amount of data in result files"])

prop("C18", "Results on disk are only ever added to",
     "An experiment never overwrites, truncates, renames or deletes a file or folder that was there before it: every "
     "observer works in a result folder that this very call has created (NAME, NAME-0001, ...; a folder that exists is "
     "never taken), result files are opened for appending only, and no library function but the documented removal "
     "function (coco_remove_directory) removes anything.",
     ["histories", "configurations"],
     "every content of the file system, every sequence of experiments, every observer and option",
     "Tests start from a clean directory and remove what they wrote; overwriting shows only when something of value is "
     "already there.",
     ["src/coco_utilities.c", "src/coco_observer.c", "src/logger_*.c", "src/coco_archive.c"],
     [("unique folders", "src/coco_utilities.c:coco_mkdir, coco_create_directory, coco_create_unique_directory"),
      ("opened files", "src/logger_*.c, src/coco_observer.c")],
     ["contents of existing result folders after another experiment"])

prop("C19", "A logged evaluation is on disk when the evaluation returns",
     "When coco_evaluate_function (or coco_recommend_solution) returns, the lines that the bbob, bbob-old, rw and toy "
     "loggers have written about evaluations so far, and the solutions the bi-objective logger has written to its archive "
     "of nondominated solutions, have been handed to the operating system: a crash or kill of the experiment afterwards "
     "loses none of them.",
     ["crash_points", "inputs"],
     "every crash point between evaluations, every decision which evaluations are logged",
     "The tests read the files after they were closed properly; nothing kills an experiment in between.",
     ["src/logger_bbob.c", "src/logger_bbob_old.c", "src/logger_rw.c", "src/logger_toy.c", "src/logger_biobj.c"],
     [("writing of data lines", "src/logger_*.c:logger_*_evaluate and their helpers")],
     ["contents of the result files of a killed process"])

prop("C20", "Failures are detected and reported, never used",
     "Whenever an allocation, opening a file or folder, or a lookup or construction inside the library fails, the failure "
     "is noticed before its result is used, stored for later use or handed to other code: it is either dealt with or reported "
     "by a fatal error. A fatal error (coco_error) always ends in its message and never returns to the code that raised it. "
     "Assertions, which vanish in release builds, do not count as noticing.",
     ["fault_sequences", "inputs"],
     "every failing allocation, file operation, lookup or parse, at every call",
     "No test makes an allocation, a fopen or a parse fail.",
     ["src/*.c"],
     [("allocation wrappers", "src/coco_runtime_c.c:coco_allocate_memory"), ("opening files", "src/logger_*.c"),
      ("fatal errors", "src/coco_runtime_c.c:coco_error"), ("results that may be NULL", "src/coco_suite.c, src/coco_string.c, "
       "src/mo_avl_tree.c")],
     ["behaviour under resource exhaustion and with unusable options"])

prop("C23", "A problem's metadata survive wrapping and observing and never change in use",
     "What a problem says about itself - dimension, numbers of objectives, constraints and integer variables, region of "
     "interest, initial solution, best and nadir values, id, name, type, suite indices, target, counters - is carried over "
     "completely (every element, on every path) when the problem is wrapped or observed (an observer only extends the name; "
     "a transformation may move optimum, values and region of interest but not size, indices, target and counters); using a "
     "problem (evaluating, recommending, querying, observing) changes none of its fixed metadata; and each metadata getter "
     "returns the setting it is named after.",
     ["inputs", "histories", "configurations"],
     "every problem of every suite, every observer and order of wrapping, every history of use",
     "Tests query unobserved problems or compare a few fields of a few problems; a field dropped by duplication shows only "
     "for the problem kinds that use it, after observing.",
     ["src/coco_problem.c", "src/logger_*.c", "src/transform_*.c"],
     [("duplication", "src/coco_problem.c:coco_problem_duplicate, coco_problem_transformed_allocate"),
      ("observers", "src/logger_*.c:logger_bbob, logger_bbob_old, logger_biobj, logger_rw, logger_toy"),
      ("getters", "src/coco_problem.c:coco_problem_get_*")],
     ["coco_problem_get_* before and after coco_problem_add_observer and evaluations"])

prop("C24", "A problem whose optimum was handed out cannot be benchmarked any more",
     "Whenever coco_problem_get_best_parameter (or any public problem function) hands the location of the optimum to the "
     "caller the problem is marked as tainted before the call returns; the mark is never cleared again and is inherited by "
     "every wrapper made afterwards; and the bbob observer evaluates (and thus logs) an observed problem only if neither the "
     "observed problem nor the problem it wraps is tainted, otherwise it raises a fatal error - whether the optimum was "
     "retrieved before or after observing, before the first or any later evaluation.",
     ["histories", "inputs"],
     "every order of retrieving the optimum, observing and evaluating, for every problem",
     "No test retrieves the optimum of an observed problem, since the outcome is the end of the process.",
     ["src/coco_problem.c", "src/logger_bbob.c"],
     [("handing out and marking", "src/coco_problem.c:coco_problem_get_best_parameter"),
      ("refusal", "src/logger_bbob.c:logger_bbob_evaluate")],
     ["coco_problem_is_tainted; the fatal error on evaluating a tainted observed problem"])

prop("C25", "Log files hold the first, every triggered and the final evaluation",
     "For every sequence of evaluations of an observed problem: the bbob, bbob-old and rw loggers write a line for the first "
     "evaluation; whenever a target or evaluation-number trigger fires, in any logger, a line is written before the "
     "evaluation returns; the trigger on evaluation numbers is consulted exactly once per evaluation, composite triggers "
     "consult all of their parts and fire when any of them does, and a trigger fires, and moves on to its next value, exactly "
     "when its next value has been reached; the trigger on targets is asked whenever the best value improves; a signalled "
     "restart leaves a line in the restart file at the next evaluation and at no later one; the best-so-far value is replaced exactly by strictly better values (or the first), together with all coordinates of "
     "its solution; and when the problem is freed, each data file of the bbob, bbob-old and biobj loggers (dat, tdat, and mdat "
     "when there were recommendations) gets a line for the final state unless the last evaluation is in it already.",
     ["histories", "inputs"],
     "every sequence of evaluated points and recommendations, every trigger setting, every problem",
     "The tests compare at most a few complete logs; whether a line is missing depends on which trigger fires at which evaluation.",
     ["src/logger_bbob.c", "src/logger_bbob_old.c", "src/logger_rw.c", "src/logger_toy.c", "src/logger_biobj.c", "src/coco_observer.c"],
     [("lines, markers and best-so-far", "src/logger_bbob.c:logger_bbob_evaluate"),
      ("final lines", "src/logger_bbob.c:logger_bbob_free"),
      ("triggers", "src/coco_observer.c:coco_observer_targets_trigger")],
     ["the lines of the .dat/.tdat/.mdat files in the result folder"])

prop("C26", "Archives keep exactly the nondominated solutions and what derives from them",
     "For every sequence of solutions given to a COCO archive or to the biobj logger: a solution enters the archive exactly if "
     "the comparison with its neighbour in the archive shows it neither dominated nor equal (and, in the logger, feasible); "
     "archived solutions are removed exactly if the new one dominates them, and all candidates are compared; the caller is "
     "told whether the archive changed; the dominance verdict is the one the objective-wise comparisons imply; the sorted list "
     "through the tree stays doubly linked with correct ends; the logger's indicator value contains the contribution of a "
     "solution exactly while it is archived, solutions waiting to be logged never include freed ones, and each new "
     "nondominated solution is written to the archive file before the evaluation returns when all of them are to be logged; "
     "and the number of solutions, the hypervolume and the listing of a COCO archive always reflect its current content.",
     ["histories", "inputs"],
     "every sequence of objective vectors (ties, duplicates, dominated, infeasible, extreme ones) and every moment of reading",
     "Whether a node is lost, kept, counted twice or read after being freed depends on the order of the solutions; the tests "
     "feed a few.",
     ["src/coco_archive.c", "src/logger_biobj.c", "src/mo_utilities.c", "src/mo_avl_tree.c"],
     [("archive update", "src/coco_archive.c:coco_archive_add_solution"),
      ("derived values", "src/coco_archive.c:coco_archive_update"),
      ("logger archive and indicator", "src/logger_biobj.c:logger_biobj_tree_update"),
      ("dominance", "src/mo_utilities.c:mo_get_dominance"), ("list", "src/mo_avl_tree.c:avl_node_unlink")],
     ["coco_archive_add_solution, coco_archive_get_number_of_solutions, coco_archive_get_next_solution_text, "
      "coco_archive_get_hypervolume; the .adat and .dat files of bi-objective runs"])

prop("C90", "Objective values equal the published definition of each function",
     "For every suite, function, dimension, instance and point, the value (and constraint values) returned is the one of the "
     "published definition of the benchmark function with that instance's transformations, up to floating point rounding, and "
     "the stored best value is the global minimum.",
     ["inputs", "configurations"],
     "every point of every problem instance", "Tests compare some hundred sampled values.",
     ["src/f_sphere.c", "src/suite_bbob.c"],
     [("raw functions", "src/f_sphere.c:f_sphere_raw")], ["coco_evaluate_function", "coco_problem_get_best_value"])
NA.append({"property": "C90", "reason": "The values are real-number functions of run-time floating point data (rotations, powers, "
           "oscillations); deciding them needs numerical evaluation or proofs about floating point arithmetic, not inspection "
           "of the source. Structural parts (every output defined, nothing carried between evaluations, order of wrappers "
           "and counts) are claimed under C02, C04, C10 and C23."})

prop("C91", "The hypervolume reported is that of the archived solutions",
     "The hypervolume returned for an archive (and the indicator value logged) is the area dominated by the archived solutions "
     "within the region of interest, relative to the reference point.",
     ["histories", "inputs"],
     "every sequence of solutions", "Tests feed a few.",
     ["src/coco_archive.c", "src/logger_biobj.c"],
     [("area computation", "src/coco_archive.c:coco_archive_update")], ["coco_archive_get_hypervolume", "the .dat file"])
NA.append({"property": "C91", "reason": "The area is arithmetic on run-time coordinates of an unbounded list; no static argument in "
           "reach bounds it. The bookkeeping (which contributions are included, when the value is recomputed) is claimed "
           "under C26."})

prop("C92", "Pseudo-random numbers are well distributed and in their documented range",
     "The uniform generator returns values in [0,1) that are equidistributed, the normal one standard normal values, for every "
     "seed.",
     ["inputs", "histories"],
     "every seed and any number of draws", "Tests draw a few numbers.",
     ["src/coco_random.c"],
     [("generator", "src/coco_random.c:coco_random_uniform")], ["coco_random_uniform", "coco_random_normal"])
NA.append({"property": "C92", "reason": "A statistical statement about the arithmetic of a lagged Fibonacci generator; static "
           "analysis of the source cannot decide it. That the stream depends on the seed only is claimed under C22."})
