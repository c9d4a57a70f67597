#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json: `python3 lib/props.py` rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe="", tech="", note="", level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, tech=tech, note=note, level=level))


ENUM = "explicit-state enumeration of a bounded model/input space; the real binary is run on every member and each observed state is compared with an independent reference model"

prop("P01", "Every epoch of every exact method is the Bellman backup of the previous epoch",
     "For every valid model and every exact solution method, the value function saved for each epoch equals the optimal one-step "
     "backup of the previous epoch's value function at every belief, and every vector in it is the value of some one-step plan over "
     "the previous epoch.  Epoch zero is the all-zero function (or the given terminal values).",
     ["inputs", "configurations"],
     "all finite models within the bounded families (1-4 states, actions, 1-5 observations), all beliefs of the simplex (decided at the vertices of the value surface), all six exact algorithms, all epochs up to the horizon",
     "the only end-to-end test runs one model (tiger.95) with one method and looks at the number of vectors; no test compares a value with the definition of optimality",
     ["src/pomdp-solve.c", "src/enumeration.c", "src/two-pass.c", "src/witness.c", "src/inc-prune.c", "src/projection.c", "src/cross-sum.c", "src/parsimonious.c", "src/region.c", "src/neighbor.c", "src/lp-interface.c"],
     [("dispatch of one epoch's update", "improveV() in src/pomdp-solve.c"), ("projections (gamma/a/o transforms)", "makeAllProjections() in src/projection.c"),
      ("cross sums and pruning", "src/cross-sum.c, src/parsimonious.c, src/inc-prune.c, src/enumeration.c"), ("region searches", "src/witness.c, src/two-pass.c, src/region.c")],
     "<prefix>.alphaN / <prefix>.pgN written with -save_all", ENUM,
     "complete product spaces of tiny models plus indexed families of larger shapes and the shipped examples; double arithmetic compared with relative tolerance 1e-6")

prop("P02", "The solution does not depend on algorithm or efficiency options",
     "For a given model and horizon, every exact method and every combination of the options that only steer pruning, witness-point "
     "seeding, random initial points or purge strategy yields the same value function at every belief; with complete purging (prune or normal) also the same number of vectors.",
     ["configurations", "inputs"], "all pairs of option values (and larger products) over every exact method, on every model of the family",
     "the tests run only the default option set; option interactions are exercised nowhere",
     ["src/parsimonious.c", "src/pomdp-solve-options.c", "src/pomdp-solve.c", "src/enumeration.c", "src/two-pass.c", "src/witness.c", "src/inc-prune.c", "src/stats.c"],
     [("purge option dispatch", "purgeAlphaList() in src/parsimonious.c"), ("projection/Q purge options", "purgeProjections(), src/pomdp-solve.c"), ("initial points", "addWitnessPoints/random points in src/parsimonious.c")],
     "final and per-epoch .alpha files", ENUM, "all option products listed in the check over an indexed model family")

prop("P03", "A saved solution is parsimonious and in canonical order",
     "Every vector of a saved value function is strictly best at some belief, no vector appears twice, and vectors are written in ascending "
     "lexicographic order.",
     ["inputs", "configurations"], "all models of the bounded families, all exact methods, all epochs; strict usefulness decided exactly at the vertices of the other vectors' surface",
     "tests count nine vectors for one model and would accept any nine",
     ["src/parsimonious.c", "src/alpha.c", "src/pomdp-solve.c"],
     [("purging", "purgeAlphaList() and friends in src/parsimonious.c"), ("sorting", "sortAlphaList() in src/alpha.c, called at the end of improveV() in src/pomdp-solve.c")],
     "<prefix>.alphaN", ENUM, "vectors whose advantage lies between the solver's precision 1e-9 and 1e-6 are not judged")

prop("P04", "The policy graph reproduces the value function it was saved with",
     "Line i of a saved policy graph belongs to vector i of the value function saved with it, names that vector's action, and gives for each "
     "observation the vector of the previous epoch to continue with, so that the immediate reward plus discounted continuation values "
     "reproduces the vector exactly.  An observation is marked as having no successor only if it cannot occur.",
     ["inputs", "configurations", "histories"], "all models of the families, all exact methods, all epochs",
     "no test reads a .pg file; the existence of the file is not even checked",
     ["src/pg.c", "src/alpha.c", "src/cross-sum.c", "src/pomdp-solve.c", "src/projection.c"],
     [("plan bookkeeping through cross sums", "src/cross-sum.c"), ("renumbering", "renumberAlphaList in src/alpha.c"), ("writing", "writePolicyGraph / src/pg.c")],
     "<prefix>.alphaN, <prefix>.pgN and <prefix>.alpha(N-1)", ENUM, "")

prop("P05", "Value iteration stops exactly when its stopping criterion or horizon says so",
     "The solver runs at most the requested number of epochs and stops earlier only when the chosen criterion is met between the last two "
     "value functions: the same vectors (exact); every new vector within delta*(1-discount)/(2*discount) of some previous vector in every component (weak); "
     "largest difference of the two value functions over all beliefs within that bound (bellman).  It never stops while the criterion is unmet and never "
     "continues after it is met.",
     ["inputs", "configurations"], "all models of the family crossed with criteria, deltas, discounts and horizons",
     "one run of one model with the default criterion is the only test",
     ["src/pomdp-solve.c", "src/alpha.c"],
     [("criteria", "meetStopCriteria() in src/pomdp-solve.c"), ("residual", "bellmanError()/weakBound.. in src/pomdp-solve.c, src/alpha.c")],
     "saved epochs, stdout epoch lines", ENUM, "")

prop("P06", "Solving in stages through terminal values equals solving in one go",
     "Running h1 epochs, then continuing for h2 epochs from the saved value function, gives the value function that one run of h1+h2 epochs "
     "gives, for every split, method and model; arbitrary terminal value functions are backed up exactly, and the first epoch's policy graph refers to "
     "the given vectors by their position in the file.",
     ["inputs", "histories"], "all splits of the horizon (with chains of up to four stages) over the model families and methods, and all terminal vector sets of a bounded grid",
     "no test uses the terminal-values option",
     ["src/pomdp-solve.c", "src/alpha.c", "src/params.c"],
     [("reading initial policy", "initPomdpSolve() and readAlphaList()"), ("starting solution", "solvePomdp()")], ".alpha files", ENUM, "")

prop("P07", "Saved epochs, penultimate and final solutions are mutually consistent",
     "With all epochs saved there is exactly one value function and policy graph per completed epoch, the final files equal the last epoch's, "
     "the penultimate file equals the epoch before it, saving options never change the solution, and no temporary file is left behind.",
     ["configurations", "histories"], "all combinations of saving options, prefixes, methods and horizons over the model family",
     "tests never look at any of the saved files but one",
     ["src/pomdp-solve.c", "src/params.c"], [("saving", "handleSaveEpoch/ saveAlphaList calls in src/pomdp-solve.c")],
     "directory listing and file contents after the run", ENUM, "")

prop("P08", "An interrupt at any moment yields the complete solution of a whole epoch",
     "If an interrupt (SIGINT), or several, arrives at any moment during solving, the program finishes the epoch under way and ends with the solution of that "
     "completed epoch: value function, policy graph and saved per-epoch files are identical to what an uninterrupted run has after that epoch, the report shows that many "
     "epochs, the exit status is success, and the temporary recovery file is removed.",
     ["schedules", "histories"], "every interrupt position: an interrupt delivered between any two executed basic blocks of the program (classes of equal position in quick, every one in thorough), at every system call, and pairs of interrupts",
     "tests never send a signal",
     ["src/signal-handler.c", "src/pomdp-solve.c"], [("handler", "sigIntHandler in src/signal-handler.c"), ("loop test", "solvePomdp()")],
     "files, report and exit status", "stateless model checking of the real program: exhaustive enumeration of interrupt delivery points under a controlled scheduler (signal injected at every counted basic block by an in-process tracer, at every system call by ptrace), each outcome compared with the uninterrupted run", "bounded: fixed set of small models/methods, all delivery points of each run")

prop("P09", "A crash or write failure at any point never corrupts the recovery solution",
     "If the process dies at any point of solving, then the recovery file, once a first epoch is done, is the whole solution of the last completed epoch (or the one before while it is being replaced), or the "
     "complete solution files are there; files saved for earlier epochs are whole. If a file operation fails, every solution file that is not written completely is reported, the program does not "
     "crash, and the recovery file is kept when the value function could not be written. A solution can be resumed from the recovery file.",
     ["crash_points", "fault_sequences"], "death before every file operation and inside every write (at record boundaries and in between), every single failing operation with each plausible error, every failing suffix, short writes, and failure-then-death pairs",
     "tests never crash the program nor fail a system call",
     ["src/pomdp-solve.c", "src/alpha.c", "src/pg.c"], [("recovery file", "saveAlphaList(backup_file) in solvePomdp()"), ("final write and unlink", "endPomdpSolve()/solvePomdp()")],
     "files and messages after the crash or fault", "exhaustive crash-point and fault enumeration of the real program under system-call control (ptrace): all crash points, torn writes, single faults and fault/crash pairs of the run's history", "process death, not power loss; bounded: fixed set of small models/methods, all fault points of each run")

prop("P10", "A model file means what the file format says it means",
     "For every syntactically valid model file the solver uses exactly the discount, value type, sizes, names, initial belief, transition and observation "
     "probabilities and expected rewards that the documented format assigns to that text: wildcards, names or indices, identity/uniform/reset keywords, single, row "
     "and matrix forms, and later specifications overriding earlier ones.",
     ["programs", "inputs"], "all sequences of specification statements up to a bounded length over a small alphabet of statement forms, plus the shipped example models",
     "one example file is parsed by the tests",
     ["src/mdp/parser.y", "src/mdp/scanner.l", "src/mdp/mdp.c", "src/mdp/sparse-matrix.c", "src/mdp/parse_hash.c", "src/mdp/imm-reward.c"],
     [("grammar actions", "setMatrixContext()/enterMatrix() in src/mdp/parser.y"), ("conversion", "convertMatrices()/computeRewards() in src/mdp/mdp.c"), ("names", "src/mdp/parse_hash.c")],
     "in-memory model dumped by a harness; one-epoch solutions of the binary", "explicit-state enumeration of all statement sequences up to a depth; the real parser's final state compared with a reference interpreter of the language", "")

prop("P11", "An invalid model is rejected and never solved",
     "A model file with a syntax error, an undefined or duplicate name, an out-of-range index, a missing or wrong preamble, a matrix of the wrong size, "
     "or probabilities that do not sum to one is rejected with a message and a failing exit status, and no solution file is produced; a valid model is never rejected.",
     ["inputs", "programs"], "all single and double faults over an enumerated set of mutations of valid models, and sums at a grid of distances from one",
     "the tests contain no invalid model",
     ["src/mdp/parser.y", "src/mdp/parse_err.c", "src/mdp/mdp.c", "src/pomdp.c"], [("error collection", "ERR_enter/ERR_dump in src/mdp/parse_err.c"), ("probability check", "checkProbs() in src/mdp/parser.y")],
     "exit status, stderr, absence of files", "exhaustive enumeration of all single/double faults of a fault alphabet over model texts, against a reference validity checker", "")

prop("P12", "The last matching reward specification wins for every transition",
     "For every action, state, next state and observation, the reward used is the one of the last specification in the file whose pattern matches (zero if none), "
     "for every mixture of wildcards, single values, rows and matrices, in every order.",
     ["programs", "inputs"], "all sequences of reward statements up to a bounded length over all wildcard patterns",
     "no test has overlapping reward specifications",
     ["src/mdp/imm-reward.c", "src/mdp/decision-tree.c", "src/mdp/parser.y"], [("decision tree", "dtAdd()/dtGet() in src/mdp/decision-tree.c"), ("reward list", "src/mdp/imm-reward.c")],
     "rewards queried through a harness", "explicit-state enumeration of all statement sequences up to a depth against a last-match-wins reference", "")

prop("P13", "Sparse matrices behave as matrices",
     "Building a matrix entry by entry in any order, with overwriting, adding and clearing, and converting it to its compact form gives the same entries, row sums "
     "and sizes as a plain dense matrix given the same operations.",
     ["histories"], "all operation sequences up to a depth over a small index and value alphabet",
     "there is no test for the sparse matrix code",
     ["src/mdp/sparse-matrix.c"], [("intermediate and compact forms", "src/mdp/sparse-matrix.c")], "entries read back through the public accessors",
     "explicit-state search over all operation sequences up to a depth on the real code, compared with a dense model", "")

prop("P14", "Vector-list operations keep list contents, order and counts right",
     "Appending, prepending, inserting, removing, moving between lists, sorting, deleting marked vectors, copying and destroying vector lists keep exactly the "
     "vectors a simple sequence model keeps, with a correct stored length, and look-ups, comparisons and best-vector queries answer accordingly, for every sequence of operations.",
     ["histories"], "all operation sequences up to a depth over two lists and a small vector alphabet",
     "the vector list used by the solver has no test",
     ["src/alpha.c"], [("list operations", "src/alpha.c")], "lists walked through the public accessors after every operation",
     "explicit-state search over all operation sequences up to a depth on the real code, compared with a sequence model", "")

prop("P15", "Purging removes only useless vectors and never lowers the value anywhere",
     "Each purge strategy leaves a subset of the given vectors whose maximum equals the original maximum at every belief; strategies documented as complete leave "
     "only vectors that are strictly best somewhere.",
     ["inputs", "configurations"], "all sets of up to a few vectors over a bounded value grid, every purge strategy, with duplicates and ties",
     "no test calls a purge routine directly",
     ["src/parsimonious.c", "src/alpha.c", "src/lp-interface.c"], [("domination check, prune, witness-point marking", "src/parsimonious.c")], "purge_alphas tool and a harness", 
     "exhaustive enumeration of all vector sets over a bounded grid, on the real purge code, against exact rational geometry", "")

prop("P16", "Linear programs are solved correctly",
     "Every linear program handed to the LP layer is classified correctly as having an optimum or not (no feasible point, or unbounded), independently of the programs solved before it; an optimal answer is feasible and attains the true optimum, and the program itself is left as it was.",
     ["inputs"], "all small programs over a bounded coefficient grid, in the dominance form the solver poses and in general form",
     "the tests never call the linear program layer directly",
     ["src/lp-interface.c", "src/lp-solve/solve.c", "src/lp-solve/lpkit.c"], [("simplex method", "src/lp-solve/solve.c"), ("wrapper", "LP_solve() in src/lp-interface.c")], "objective and point returned by the wrapper",
     "exhaustive enumeration of all programs over a coefficient grid against exact vertex enumeration", "")

prop("P17", "Belief updates follow Bayes' rule along every history",
     "After any sequence of actions and observations the reported belief is the normalised Bayesian posterior from the initial belief; an impossible observation is "
     "reported as such, and invalid input leaves the belief unchanged.",
     ["histories", "inputs"], "all action/observation histories up to a depth for each model of the family, with invalid lines at every position",
     "no test runs the belief update",
     ["src/belief.c", "src/utils.c", "src/pomdp-tools-main.c"], [("posterior", "transformBeliefState() in src/belief.c"), ("line protocol", "UTIL_doBeliefUpdates() in src/utils.c")], "stdout of the update_beliefs tool",
     "explicit-state search of the belief MDP to a depth; every path replayed on the real tool", "")

prop("P18", "Evaluating a policy graph gives the exact value of following it",
     "For every policy graph the reported value of each node in each state is the expected discounted reward (or cost, in the model's own terms) of executing the graph from there, and the value and node reported for the "
     "initial belief are those of the best node: highest value for rewards, lowest for costs.  A malformed policy graph file is refused.",
     ["programs", "inputs"], "all controllers up to a bounded number of nodes over each model of the family",
     "no test evaluates a policy graph",
     ["src/pg-eval.c", "src/pg.c", "src/laspack-util.c", "src/laspack/itersolv.c", "src/laspack/qmatrix.c"], [("equations", "PGE_setRowCoefs() in src/pg-eval.c"), ("iterative solver", "JacobiIter in src/laspack/itersolv.c")], "stdout of the pg_eval tool",
     "exhaustive enumeration of all finite controllers over bounded models; each evaluated by the real tool and by an exact linear solve", "values are printed with two decimals")

prop("P19", "The vector file tools compute what they report",
     "Sorting, comparing, purging, mapping beliefs, comparing at beliefs and relinking policy graphs produce files and reports that agree with direct computation from the input files.",
     ["inputs"], "all small vector and belief files over a bounded grid",
     "no test runs these tools",
     ["src/utils.c", "src/pomdp-tools-main.c", "src/alpha.c", "src/pg.c"], [("tools", "src/utils.c")], "output files and stdout of each tool",
     "exhaustive enumeration of all small input files over a grid; real tool output compared with a reference computation", "")

prop("P20", "The grid method backs up exactly at its grid points and never overestimates",
     "Each epoch of the finite-grid method has, at every grid point, exactly the optimal backup of the previous epoch, every vector is the value of a one-step plan, and so the value never exceeds the exact one.  "
     "The grid consists of valid, distinct beliefs of the requested kind.",
     ["inputs", "configurations"], "all grid types, sizes and purge options over the model family",
     "no test uses the grid method",
     ["src/finite-grid.c", "src/pomdp-fg.c", "src/belief.c"], [("grid construction", "FG_initializeGrid in src/finite-grid.c"), ("point backup", "improveGrid..  in src/finite-grid.c, src/alpha.c")], "saved grid, .alphaN files", ENUM, "")

prop("P21", "Options mean the same wherever they are given, and bad ones are refused",
     "Every documented option takes effect with its given value from the command line or the configuration file, the command line overriding the file, unset options having their documented "
     "defaults; an unknown option or an invalid value is refused with a failing exit status and nothing is solved.",
     ["configurations"], "all options with all enumerated values and boundary numbers, singly and in all pairs of sources",
     "tests pass two options on one command line",
     ["src/program-options.c", "src/command-line.c", "src/config-file.c", "src/associative-array.c", "src/pomdp-solve-options.c", "src/pomdp-tools-options.c"],
     [("merge of sources", "PO_create() in src/program-options.c"), ("validation", "PO_get*Option()")], "effective settings printed at start-up, exit status", 
     "exhaustive enumeration of option x value x source combinations against a reference table of the documented options", "")

prop("P22", "Value functions survive writing and reading unchanged",
     "A value function written to a file and read back has the same vectors, actions and order to full working precision, for all magnitudes that can occur; truncated or malformed files are refused rather than half-read.",
     ["inputs", "crash_points"], "all small lists over an alphabet of magnitudes, and every truncation point and single-token corruption of a file",
     "no test reads a value function file",
     ["src/alpha.c"], [("reading and writing", "readAlphaList()/writeAlphaList() in src/alpha.c")], "files and lists",
     "exhaustive enumeration of value lists and of all truncation/corruption points against a reference reader", "")

prop("P23", "Runs are reproducible",
     "With the same model and options, including a random seed, a run produces identical output; the random stream is determined by the seed alone and saving and restoring the seed resumes the same stream.",
     ["configurations", "histories"], "all methods that use randomness, several seeds, repeated under different process ids, memory contents and environment",
     "no test runs anything twice",
     ["src/random.c", "src/params.c", "src/belief.c"], [("generator", "src/random.c")], "output files of repeated runs, random streams",
     "exhaustive enumeration of (model, method, seed, perturbed environment) combinations and of generator operation sequences, outputs compared for equality", "")

prop("P24", "Equivalent models have equivalent solutions",
     "Rewriting a model without changing its meaning (costs for negated rewards, renaming or permuting states, actions and observations, scaling or shifting rewards, discount given in file or on the command line, other "
     "textual forms) changes the solution only by the corresponding renaming, negation, scaling or shift.",
     ["inputs", "programs"], "all models of the family crossed with all permutations and rewritings",
     "no test compares two models",
     ["src/mdp/mdp.c", "src/mdp/parser.y", "src/pomdp.c", "src/pomdp-solve.c"], [("value type", "src/mdp/mdp.c, src/pomdp.c"), ("discount override", "initPomdpSolve()")], ".alpha files",
     "exhaustive enumeration of all symmetry images of each model; the real solver run on each image and the results related", "")

prop("P25", "The general-purpose containers behave like simple sequences and maps",
     "The vector-with-list, index-list, belief-list, string-hash and key/value containers give, after every sequence of operations, what a simple reference container gives.",
     ["histories"], "all operation sequences up to a depth over small alphabets",
     "two of these containers have a handful of example-based tests, the others none",
     ["src/double-vector.c", "src/index-list.c", "src/belief.c", "src/associative-array.c", "src/mdp/parse_hash.c", "src/belief-state.c"], [("containers", "the named files")], "contents through the public accessors",
     "explicit-state search over all operation sequences up to a depth on the real code, compared with reference containers", "")

prop("P26", "No run reads or writes memory it does not own",
     "Whatever the model, options, input files and interrupts, no program of the package reads uninitialised or out-of-bounds memory, uses memory after freeing it, or triggers undefined arithmetic.",
     ["inputs", "configurations"], "all members of the bounded families of the other properties, run on instrumented builds",
     "tests run without instrumentation on one model",
     ["src", "src/mdp", "src/lp-solve", "src/laspack"], [("option values and prefixes", "src/params.c, src/fg-params.c, src/cmd-line.c, src/config-file.c"), ("belief and vector lists", "src/belief.c, src/alpha.c, src/utils.c"), ("model storage", "src/mdp/sparse-matrix.c, src/mdp/imm-reward.c"), ("linear programs", "src/lp-interface.c, src/lp-solve")], "sanitizer reports",
     "explicit-state exploration: exhaustive enumeration of the bounded families of the other properties and of lengths and counts of every input, every process run on builds of the real programs instrumented for addresses, undefined behaviour and uninitialised memory",
     "forty complete families on two instrumented builds in the quick tier, all families in the thorough tier; lengths up to 16385, counts up to 300")

prop("P27", "Value-iteration variations and coarse precision never break soundness",
     "With the accelerated and adjustable-precision variations, or coarser precision settings, every saved value function is still achievable: no vector exceeds the exact optimal value anywhere, each is the value of a plan, and on "
     "convergence the result is within the tolerance implied by the settings.",
     ["inputs", "configurations"], "all models of the family crossed with variations and precision settings",
     "no test uses these options",
     ["src/zlz_speedup.c", "src/pomdp-solve.c", "src/parsimonious.c", "src/params.c"], [("accelerated updates", "src/zlz_speedup.c"), ("precision schedule", "src/pomdp-solve.c")], ".alpha files", ENUM, "")

prop("P28", "The time limit stops the program",
     "Whatever the model, method and phase, a run given a time limit ends within that limit of processor time (plus a small margin) with a success status and a message, leaving "
     "only whole solutions (the recovery file of the last completed epoch, or the complete solution), and a run that finishes in time is unaffected by the limit.",
     ["schedules", "configurations"], "the limit expiring between any two executed basic blocks, at every system call, in every phase of the run for every method; and real limits on runs that need much longer",
     "no test sets a time limit",
     ["src/signal-handler.c", "src/main.c", "src/pomdp-solve.c"], [("virtual timer", "setUpIntervalTimer/sigVtalrmHandler in src/signal-handler.c")], "exit status, messages and files",
     "stateless model checking of the real program: exhaustive enumeration of timer-expiry points under a controlled scheduler (every executed basic block, every system call), also on the address-sanitised build", "bounded: fixed set of small models/methods, all expiry points of each run")

prop("P29", "Progress and summary reports agree with what was computed",
     "The epochs, vector counts, error bounds, totals and file names that the program reports match the solutions it wrote, on standard output or in the chosen report file.",
     ["inputs", "configurations"], "all models of the family crossed with report options",
     "one test greps one final vector count",
     ["src/pomdp-solve.c", "src/stats.c", "src/params.c"], [("epoch report", "solvePomdp()"), ("statistics", "src/stats.c")], "stdout/report file and .alpha files", ENUM, "")

prop("P30", "A run that cannot do its job says so and leaves existing files alone",
     "Whenever a program of the package is given incomplete or contradictory arguments, or an input file that is missing, unreadable, malformed, does not fit the others, or fails while being read, it writes a message, ends with a failing exit status, and "
     "changes, creates or removes no file, also where the result would replace an input (unusable terminal values alone give a warning and the default start).  A result file of a tool or of the solver that cannot be written completely is reported and the program ends with a failing status.  Inputs that arrive in small pieces make no difference.",
     ["inputs", "configurations", "fault_sequences"], "all proper subsets of each tool's arguments, all combinations of states of its input files, all single and double faults of solver runs, and a failure of every single opening, reading and writing operation",
     "no test runs a program on unusable input or lets a file operation fail",
     ["src/pomdp-tools-main.c", "src/utils.c", "src/alpha.c", "src/belief.c", "src/pg.c", "src/config-file.c", "src/params.c", "src/main.c", "src/pomdp-solve.c", "src/pomdp.c"],
     [("argument checks of the tools", "main() in src/pomdp-tools-main.c"), ("reading inputs before writing", "UTIL_* in src/utils.c"), ("file readers", "readAlphaList, readBeliefList, LPG_read, CF_read"), ("model checks before solving", "initPomdpSolve() in src/pomdp-solve.c, src/pomdp.c")],
     "exit status, messages and the bytes of every file in the directory",
     "exhaustive enumeration of unusable invocations and stateless exploration of the real programs under a fault injector (every opening, read and write operation fails or is cut short in turn)", "bounded: argument subsets, input states, pairs of faults; one failing file operation per run")

prop("P31", "Running out of memory is a failure, never a wrong answer",
     "Whichever memory allocation of a run fails, alone or with all later ones, the program ends as a failure (with a message, unless it dies by a signal) or its results are exactly those of the undisturbed run.  Result files of the solver, "
     "its recovery file included, are whole or as they were; what is refused with memory is refused without.",
     ["inputs", "configurations", "fault_sequences"], "every allocation of every run of the bounded set, single failures and lasting ones",
     "no test lets an allocation fail",
     ["src/xalloc.c", "src/alpha.c", "src/pg.c", "src/pg-eval.c", "src/laspack", "src/lp-solve", "src/mdp/parse_err.c", "src/mdp/mdp-common.h", "src/pomdp-solve.c"],
     [("allocation wrappers", "XA_malloc, XA_realloc, XA_calloc in src/xalloc.c"), ("linear equations", "PGE_evaluate() in src/pg-eval.c"), ("linear programs", "CALLOC/MALLOC/REALLOC in src/lp-solve/lpkit.h"), ("model reader", "src/mdp")],
     "exit status, messages and the bytes of the result files",
     "stateless exploration of the real programs under a fault injector: every memory allocation fails in turn (single and lasting)", "bounded: fixed set of models, methods and tools; every allocation (quick: first and last of every distinct call stack)")

prop("P32", "A run of any number of epochs holds no more than its value function needs",
     "The memory and the file descriptors that pomdp-solve holds at an epoch are determined by the value functions it has at hand (plus one small statistics record per epoch): between two epochs of a run with value functions of equal size nothing else has piled up, "
     "whatever the method, variation, purging and saving options.",
     ["inputs", "configurations", "histories"], "all epochs of all runs of the model family crossed with every method and option",
     "the test suite looks at results only and never at a long run",
     ["src/alpha.c", "src/pg.c", "src/pomdp-solve.c", "src/parsimonious.c", "src/inc-prune.c", "src/cross-sum.c", "src/witness.c", "src/two-pass.c", "src/neighbor.c", "src/projection.c", "src/finite-grid.c", "src/zlz_speedup.c", "src/lp-solve/solve.c", "src/lp-interface.c"],
     [("lists and their nodes", "destroyAlphaList, unionTwoAlphaLists, addWitnessToAlphaNode in src/alpha.c"), ("epoch loop", "solvePomdp() in src/pomdp-solve.c"), ("pruning", "epsilonPrune() in src/parsimonious.c, generalizedIpCrossSum() in src/inc-prune.c"), ("linear programs", "invert() in src/lp-solve/solve.c")],
     "blocks, bytes and descriptors held by the process whenever it writes its recovery file",
     "exhaustive exploration of long histories of the real program: resources held at every epoch, compared between all pairs of epochs with equal value function sizes", "bounded: 30 (thorough 60) epochs, model family, one option varied at a time")

CLAIMED = [l.strip() for l in open(os.path.join(HERE, "lib", "claimed.txt")) if l.strip()]
NA = {}
try:
    for l in open(os.path.join(HERE, "lib", "not_applicable.txt")):
        if l.strip():
            k, v = l.strip().split(" ", 1)
            NA[k] = v
except OSError:
    pass

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = [p["observe"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = []
for p in P:
    if p["id"] in CLAIMED:
        c = "python3-vt checks/run.py %s --tier " % p["id"]
        checks.append({"property": p["id"], "quick_cmd": c + "quick", "thorough_cmd": c + "thorough",
                       "technique": p["tech"], "level": p["level"],
                       "level_note": p["note"] or "bounded: the families and bounds are stated in DESIGN.md and counted in the evidence"})
na = [{"property": p["id"], "reason": NA.get(p["id"], "check under construction")} for p in P if p["id"] not in CLAIMED]
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3-vt lib/build.py plain asan msan steps stepsasan", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
