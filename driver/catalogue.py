"""Per property: what it says (properties.jsonl), how it is decided (MANIFEST.json,
evidence) and how long each tier searches.  driver/gen.py writes the two files."""

LIB = ["modelling interface", "presolver and extractors", "online bounding", "PDLP", "Lagrange dual", "local search", "tabu search", "neighbourhoods and move generation", "incumbent holder", "solution archives"]
MPS = ["MPS reader"]
APP = ["command line solver (argument handling, readers, writers)"]

A_SIM = "The simulated OpenMP runtime implements the constructs the code uses (parallel, for, sections, critical, reductions through the compiler) with team members as fibers; a preemption can happen at every basic block, not between two instructions of a block."
A_GEN = "Instances have up to about 20 integer variables and 12 constraints; options are drawn over all documented switches, limits are small so that thousands of complete solves fit in a run."
A_FLOAT = "Values are compared with a tolerance of 1e-6 relative, feasibility with the 1e-5 tolerance of the solver."

CATALOGUE = {}


def prop(id, **k):
    CATALOGUE[id] = k


prop("C01",
     title="Every reported solution is what it claims to be",
     statement="Every solution a solve hands out (the returned one, and the incumbents shown to the user callback) has integer values within the declared bounds and fixings of the user's model, and its reported objective, expression values, constraint values, violations and feasibility agree with the user's model evaluated at those values. In particular no solution that breaks a constraint of the user's model by more than the numerical tolerance is ever called feasible.",
     over=["inputs", "schedules", "configurations", "fault_sequences"],
     quant="For every model, option set, thread count, schedule of the workers, clock behaviour and instant at which a time limit strikes.",
     why="Unit tests check the components on a few fixed models and never evaluate the user's original model against a solve after presolve, dependent-variable extraction, online bounding, chained moves and an interruption at an arbitrary instant.",
     files=["printemps/solver/", "printemps/model/", "printemps/preprocess/", "printemps/solution/", "printemps/neighborhood/"],
     mech=[("update and evaluation of moves", "printemps/model/model.h"), ("incumbent update", "printemps/solution/incumbent_holder.h"), ("presolve and postsolve", "printemps/preprocess/")],
     observe=["solver result", "user callback", "search state at every clock read"],
     flavours=["F"], quick_s=40, thorough_s=1500, level="exploration",
     technique="deterministic simulation: seeded schedules, clock jumps and deadlines; reference model of the instance as oracle",
     note="Seeded search; oracle is an independent evaluation of the generated instance at every result, callback and search state.",
     rule="one case = random instance x options x simulated environment, solved once completely and (60%) once with the deadline at a random instant; non-trivial when a worker was preempted, the clock jumped or more than 5 search states were checked",
     real=LIB + MPS, assumptions=[A_SIM, A_GEN, A_FLOAT])

prop("C02",
     title="Results do not depend on scheduling, thread count, machine speed or memory",
     statement="Two solves of the same model with the same options and seed give the same solution, incumbent history, search trajectory and counters, whatever the number of available threads, the interleaving of the workers, the speed of the machine and jumps of the clock, as long as no time limit is reached. The same holds whether or not the library was compiled with multithreading, and whatever the contents of freshly allocated memory.",
     over=["schedules", "configurations", "inputs", "fault_sequences"],
     quant="For every model and option set, every pair of schedules, thread counts and clock behaviours without a time limit being reached.",
     why="A test runs under one schedule of one machine and never compares two; a result that depends on who finishes first looks plausible each time.",
     files=["printemps/solver/tabu_search/core/tabu_search_core.h", "printemps/solver/local_search/core/local_search_core.h", "printemps/neighborhood/", "printemps/solver/"],
     mech=[("index-wise parallel move evaluation followed by sequential selection", "printemps/solver/tabu_search/core/tabu_search_core.h"), ("seeded generators", "printemps/utility/random.h")],
     observe=["solver result", "user callback", "search state at every clock read"],
     flavours=["F", "N"], quick_s=40, thorough_s=1500, level="exploration",
     technique="deterministic simulation: differential runs of one seed under different schedules, clocks, memory contents and builds",
     note="Seeded search; every pair of runs must leave the same fingerprint. Dependence on heap addresses (maps keyed by pointers) is not varied.",
     rule="one case = one instance and option set solved single-threaded on a steady clock and again under a seeded preemptive schedule, a jumping and slower clock, arbitrary stale memory and (30%) a build without OpenMP; non-trivial when a preemption happened",
     real=LIB + MPS, assumptions=[A_SIM, A_GEN])

prop("C03",
     title="Workers never race on shared data",
     statement="While several workers update or evaluate moves, no two of them access the same memory without ordering when at least one of the accesses is a write. This holds for every neighbourhood, every phase of the solve and every combination of parallelisation options.",
     over=["schedules", "inputs", "configurations"],
     quant="For every model, option set, team size and interleaving of the workers.",
     why="The unit tests run without a race detector, on a few tiny models, and a race shows only under particular interleavings.",
     files=["printemps/neighborhood/", "printemps/solver/tabu_search/core/tabu_search_core.h", "printemps/solver/local_search/core/local_search_core.h", "printemps/solver/lagrange_dual/", "printemps/model/model.h", "printemps/utility/sparse/"],
     mech=[("work-shared loops over disjoint slots", "printemps/neighborhood/"), ("parallel move evaluation", "printemps/solver/tabu_search/core/tabu_search_core.h")],
     observe=["every instrumented memory access inside a parallel region"],
     flavours=["R"], quick_s=40, thorough_s=1500, level="exploration",
     technique="deterministic simulation with a happens-before race oracle over all instrumented accesses",
     note="Seeded search; the oracle compares all accesses of different workers in one region, so a race is seen whenever both accesses are executed, whatever the interleaving. Accesses inside uninstrumented libc functions are seen for memcpy/memmove/memset only.",
     rule="one case = random instance and options with 2 to 6 workers; non-trivial when accesses of several workers were compared",
     real=LIB + MPS, assumptions=[A_SIM, A_GEN, "Regions are joined in order; synchronisation inside a region is a barrier or critical section."])

prop("C05",
     title="The incumbent only improves and nothing found is lost",
     statement="From one user callback to the next the best feasible solution never disappears and never gets worse, and the returned solution is at least as good as the last one reported and as every feasible solution the search has visited. A solve that is given more time, all else equal, never returns a worse solution than one interrupted earlier.",
     over=["histories", "schedules", "fault_sequences", "inputs"],
     quant="For every model, option set, schedule and every pair of instants at which the time limit strikes.",
     why="The relation is over whole histories and pairs of interrupted runs; the tests look at single calls of the holder.",
     files=["printemps/solution/incumbent_holder.h", "printemps/solver/solver.h", "printemps/solver/tabu_search/", "printemps/solver/local_search/", "printemps/solver/global_state.h"],
     mech=[("try_update_incumbent", "printemps/solution/incumbent_holder.h"), ("hand-over between phases", "printemps/solver/solver.h")],
     observe=["user callback", "solver result", "search state at every clock read"],
     flavours=["F"], quick_s=40, thorough_s=1500, level="exploration",
     technique="deterministic simulation: history invariants and pairs of runs cut off at seeded instants",
     note="Seeded search; monitors compare every visited feasible state with the incumbent history.",
     rule="one case = a complete run plus two runs of the same seed cut off at two random instants of simulated time; non-trivial when a feasible solution was found",
     real=LIB + MPS, assumptions=[A_SIM, A_GEN, A_FLOAT])

prop("C14",
     title="Incrementally maintained values never drift from the model",
     statement="At every step of the search the objective, constraint and violation values the solver works with equal those obtained by evaluating the current assignment from scratch.",
     over=["histories", "schedules", "inputs", "configurations"],
     quant="For every sequence of moves the search performs on every model and option set, under every schedule.",
     why="The values are maintained incrementally over thousands of moves of many kinds; tests apply single moves to single models.",
     files=["printemps/model/model.h", "printemps/model_component/", "printemps/neighborhood/"],
     mech=[("incremental update after a move", "printemps/model/model.h"), ("fixed sensitivities and neighbourhood moves", "printemps/model_component/")],
     observe=["search state at every clock read"],
     flavours=["F"], quick_s=40, thorough_s=1500, level="exploration",
     technique="deterministic simulation: invariant checked at every search state against evaluation from scratch",
     note="Seeded search; a deviation must persist over two different states of one loop, so short transients between phases are not reported.",
     rule="one case = one solve observed at every clock read; non-trivial when more than 3 stable search states were compared",
     real=LIB + MPS, assumptions=[A_SIM, A_GEN, A_FLOAT])

prop("C04",
     title="Time limits are kept, and only they cut a solve short",
     statement="Once a time limit has passed, whether by steady running, by a jump of the clock or inside a slow user callback, the solve returns its best solution after no more than a bounded amount of further work and starts no further loop. Everything that would have been done before the limit is done exactly as in the unlimited solve, and a limit that is never reached changes nothing.",
     over=["fault_sequences", "schedules", "histories", "inputs", "configurations"],
     quant="For every model, option set and instant at which the overall limit or the limit of a phase passes, on a steady or jumping clock.",
     why="A test cannot place the expiry of a limit at an arbitrary instant of a solve; on a real clock the instants reached are the few between fast steps of tiny models.",
     files=["printemps/solver/", "printemps/utility/time_keeper.h", "printemps/solver/pdlp/"],
     mech=[("time checks of the phases", "printemps/solver/tabu_search/core/tabu_search_core.h"), ("hand-over of elapsed time", "printemps/solver/solver.h"), ("clock offsets", "printemps/utility/time_keeper.h")],
     observe=["work executed after the limit passed", "user callback", "solver result"],
     flavours=["F"], quick_s=40, thorough_s=1200, level="exploration",
     technique="deterministic simulation: simulated clock with seeded expiry instants, jumps and slow callbacks; bounded-progress check after the limit and prefix comparison with the unlimited run",
     note="Seeded search. The bound is 4 times the longest stretch between clock reads of the same solve plus the work of a solve with no time at all; a jump in the short hand-over between two phases is noticed when the phase ends and is only reported when later jumps are ignored too.",
     rule="one case = an unlimited solve, a solve without any time, and a solve whose limit passes at a random instant (steady clock, jump, slow callback, or per-phase limits on a clock that moves with every read), plus one with a limit that is not reached; non-trivial when the unlimited solve goes on for longer than the bound",
     real=LIB + MPS, assumptions=[A_SIM, A_GEN, "Work is counted in executed basic blocks of the instrumented code."])

prop("C06",
     title="A solve stops when, and only when, it should",
     statement="A solve runs at most the configured number of loops and iterations per phase, calls the user callback exactly once per loop, and ends early only when the target objective value is reached, a solution is proven optimal or a time limit has passed. It ends promptly once the target is reached, and an exception thrown by the user callback leaves the solve unchanged and ends it at once.",
     over=["inputs", "histories", "configurations", "fault_sequences"],
     quant="For every model, option set, target value and callback at which an exception is thrown.",
     why="The termination conditions interact over whole solves (targets, limits, automatic adjustments, proofs of optimality); tests look at single loops with one condition each.",
     files=["printemps/solver/solver.h", "printemps/solver/tabu_search/", "printemps/solver/local_search/", "printemps/solver/lagrange_dual/"],
     mech=[("termination checks of the loops", "printemps/solver/tabu_search/controller/"), ("termination checks of a phase", "printemps/solver/tabu_search/core/tabu_search_core.h")],
     observe=["user callback", "status counters", "search state at every clock read"],
     flavours=["F"], quick_s=35, thorough_s=1200, level="exploration",
     technique="deterministic simulation: history checks on callbacks and counters, exceptions injected at seeded callbacks, exhaustive optimum of the small instance as reference",
     note="Seeded search; premature ends are decided against the exhaustive optimum where the domain can be enumerated.",
     rule="one case = a solve with (50%) a target value and (50%) a repetition in which a random callback throws; non-trivial when more than one loop was allowed",
     real=LIB + MPS, assumptions=[A_SIM, A_GEN, A_FLOAT, "With automatic adjustment the iteration limit of a loop is not less than the initial tabu tenure."])

prop("C07",
     title="The archive of feasible solutions is complete and exact",
     statement="With storing enabled, the archive of feasible solutions contains every feasible solution the search stepped on, or the best ones when its capacity is reached, each exactly once and ordered by objective value. Every entry is feasible for the user's model and its objective is the model's.",
     over=["histories", "inputs", "schedules", "fault_sequences"],
     quant="For every model, option set, capacity, schedule and instant at which the time limit strikes.",
     why="It is a statement about every state of a whole search; the tests push a handful of hand-made solutions.",
     files=["printemps/solution/solution_archive.h", "printemps/solver/tabu_search/", "printemps/solver/local_search/", "printemps/solver/lagrange_dual/"],
     mech=[("archive push, sort and truncation", "printemps/solution/solution_archive.h"), ("collection of the solutions of a phase", "printemps/solver/")],
     observe=["result archive", "search state at every clock read"],
     flavours=["F"], quick_s=35, thorough_s=1200, level="exploration",
     technique="deterministic simulation: the archive is compared with the set of feasible states observed during the simulated search",
     note="Seeded search. States a phase starts from and states of the random initial modification are not archived by design and not required.",
     rule="one case = one observed solve and (30%) one cut off at a random instant; non-trivial when the archive holds more than one solution",
     real=LIB + MPS, assumptions=[A_SIM, A_GEN, A_FLOAT])

prop("C11",
     title="The number of workers stays within the configured budget",
     statement="No part of the search uses more workers than the parallelisation options allow, from the first loop to the last; a disabled parallelisation uses one worker, a fixed number of threads uses exactly that many. The averages reported in the status stay within the same budget.",
     over=["configurations", "schedules", "inputs"],
     quant="For every combination of the parallelisation options, number of available threads and model.",
     why="The number of workers of a parallel region is not observable in the result, so no test looks at it.",
     files=["printemps/solver/", "printemps/model/model.h", "printemps/neighborhood/", "printemps/solver/memory.h"],
     mech=[("num_threads clauses and their settings", "printemps/solver/tabu_search/core/tabu_search_core.h"), ("automatic choice of the number of threads", "printemps/solver/tabu_search/controller/")],
     observe=["size of every team started during the solve"],
     flavours=["F"], quick_s=30, thorough_s=900, level="exploration",
     technique="deterministic simulation: the simulated OpenMP runtime records every team the solve starts",
     note="Seeded search. Regions of the MPS import and of PDLP follow the runtime's default and are outside the property.",
     rule="one case = random model with random parallelisation options and 2 to 8 available threads; non-trivial when the budget is below the number of available threads or exact",
     real=LIB, assumptions=[A_SIM, A_GEN, "In automatic mode the budget is the larger of the configured and the available number of threads."])

prop("C12",
     title="Bounds and optimality claims are true",
     statement="No dual bound reported to the callback or in the final state ever passes the true optimum, no bound tightening during the search cuts off all optimal solutions, and a solve that stops because it holds its solution for optimal holds an optimal one. No reported feasible solution is better than the optimum.",
     over=["inputs", "histories", "configurations", "fault_sequences"],
     quant="For every model whose domain can be enumerated, every option set and every instant at which the time limit strikes.",
     why="Optimality is a statement about all assignments; the tests compare single bounds of single models.",
     files=["printemps/solver/lagrange_dual/", "printemps/solver/pdlp/", "printemps/preprocess/", "printemps/solution/incumbent_holder.h", "printemps/solver/"],
     mech=[("dual bounds", "printemps/solver/lagrange_dual/"), ("online bounding", "printemps/preprocess/"), ("optimality tests of the search", "printemps/solver/tabu_search/core/tabu_search_core.h")],
     observe=["user callback", "variable bounds at every clock read", "solver result"],
     flavours=["F"], quick_s=35, thorough_s=1500, level="exploration",
     technique="deterministic simulation: seeded solves and interruptions against exhaustive enumeration of the small instance",
     note="Seeded search over instances small enough to enumerate; bounds are compared with tolerance 1e-4.",
     rule="one case = one solve and (30%) one cut off at a random instant; non-trivial when the instance is satisfiable and at least one loop was run",
     real=LIB + MPS, assumptions=[A_SIM, "Instances have at most 1e6 assignments.", A_FLOAT])

prop("C08",
     title="Success means that every result file is complete and true",
     statement="When the command line solver reports success, every result file it was asked for exists, is well formed and complete, the files agree with each other, and what they say about the solution agrees with the input model. If a file cannot be opened, written or closed the run ends with an error, never with success and a missing or damaged file; short and interrupted writes do no harm.",
     over=["fault_sequences", "crash_points", "inputs", "configurations"],
     quant="For every model, option file, and open, write or close operation that fails, is cut short, interrupted or meets a full disk after any number of bytes.",
     why="The tests never run the command line program, and no test makes a write fail.",
     files=["printemps/standalone/mps_solver.h", "printemps/utility/json/json.h", "printemps/solution/", "printemps/solver/status.h", "printemps/model/model.h"],
     mech=[("writing of the results", "printemps/standalone/mps_solver.h"), ("JSON writer", "printemps/utility/json/json.h")],
     observe=["files left behind", "exit of the program"],
     flavours=["A"], quick_s=30, thorough_s=900, level="exploration",
     technique="deterministic simulation: faults injected into the file system calls of the real program, outputs checked against a reference model",
     note="Seeded search over which operation fails and how; the undisturbed run of the same seed is the reference for the bytes.",
     rule="one case = one instance and option file through the command line solver, then three runs with one storage fault each at a random operation; non-trivial when a fault fired",
     real=LIB + MPS + APP, assumptions=[A_SIM, A_GEN, "Storage faults are injected at the libc boundary (open, fopen, read, write, writev, close); power loss after a successful close is not simulated since the program never calls fsync."])

prop("C09",
     title="Inputs are read exactly or refused",
     statement="The command line solver solves exactly the problem, options, fixings and initial values given in its input files, however the operating system cuts the reads into pieces. If an input cannot be opened or read to its end the run fails with an error before any result file is written; it never continues with a part of the input.",
     over=["fault_sequences", "inputs", "configurations"],
     quant="For every model, option file, fixing and initial value file, every division of the reads and every read or open that fails.",
     why="The tests read a handful of files that are always readable in one piece, and do not compare every option with what takes effect.",
     files=["printemps/mps/mps.h", "printemps/utility/json/json.h", "printemps/helper/auxiliary_file_reader.h", "printemps/option/", "printemps/standalone/mps_solver.h", "printemps/model/model.h"],
     mech=[("MPS reader", "printemps/mps/mps.h"), ("option reader", "printemps/option/"), ("auxiliary files", "printemps/helper/auxiliary_file_reader.h")],
     observe=["files left behind", "exit of the program", "options echoed in the status"],
     flavours=["A"], quick_s=35, thorough_s=900, level="exploration",
     technique="deterministic simulation: chunked, interrupted, short and failing reads of the real program, results checked against a reference model of the input",
     note="Seeded search; options are judged by the echo in the status file and, for the instance and fixings, by the solution.",
     rule="one case = one instance with option, fixing, initial value and pair files through the command line solver, again with reads in small pieces, and three times with one fault; non-trivial when a fault fired",
     real=LIB + MPS + APP, assumptions=[A_SIM, A_GEN])

prop("C10",
     title="A restart from a saved solution never loses ground",
     statement="When the command line solver is started with the solution file of an earlier run, the result is feasible if the given solution was and its objective value is never worse, over any chain of restarts. This holds when runs in between were cut off by a time limit, crashed at an arbitrary point or met a full disk, as long as the solution file that survives describes a feasible solution.",
     over=["crash_points", "histories", "fault_sequences", "inputs"],
     quant="For every model, option set, chain of up to five runs, crash point, full disk and time limit.",
     why="The tests never chain two runs or interrupt one.",
     files=["printemps/standalone/mps_solver.h", "printemps/helper/auxiliary_file_reader.h", "printemps/solution/", "printemps/solver/", "printemps/model/model.h", "printemps/preprocess/"],
     mech=[("import of the initial solution", "printemps/standalone/mps_solver.h"), ("incumbents", "printemps/solution/incumbent_holder.h")],
     observe=["solution file after each run"],
     flavours=["A"], quick_s=30, thorough_s=900, level="exploration",
     technique="deterministic simulation: chains of runs with crashes at random work counts, full disks and deadlines; only the files survive",
     note="Seeded search; the reference model evaluates the solution file before and after each run.",
     rule="one case = two to five runs in a row, each regular, crashed at a random point or with a full disk, the next one starting from the solution file left; non-trivial when a run started from a feasible file",
     real=LIB + MPS + APP, assumptions=[A_SIM, A_GEN, "A crash keeps everything handed to the operating system and loses what is still buffered in the process."])

prop("C13",
     title="Progress reports tell the truth",
     statement="The trend file has exactly one row per completed loop, written before the callback of that loop, with the right number, an elapsed time that never goes back and lies within the loop, and the objective value and feasibility of the best solution found so far; rows of completed loops survive an exception of the callback or a crash of the process. The status reports the elapsed time and the counters of the solve, and the exported files repeat the values of the result.",
     over=["crash_points", "schedules", "inputs", "histories"],
     quant="For every model, option set, schedule, clock behaviour, deadline, and instant of a crash or of an exception in the callback.",
     why="The tests never read the trend file, and no test compares the counters with what the solve did.",
     files=["printemps/solver/tabu_search/controller/tabu_search_controller_logger.h", "printemps/solver/status.h", "printemps/solver/tabu_search/controller/", "printemps/solution/"],
     mech=[("trend log", "printemps/solver/tabu_search/controller/tabu_search_controller_logger.h"), ("status", "printemps/solver/status.h")],
     observe=["trend file", "status", "user callback", "exported files"],
     flavours=["F"], quick_s=30, thorough_s=900, level="exploration",
     technique="deterministic simulation: crashes at random work counts, exceptions in callbacks, deadlines and clock jumps; rows checked against callbacks and a reference model",
     note="Seeded search. The objective in the trend is that of the minimisation form. Of an infeasible best solution only the fact is compared, since presolving adds and removes rows.",
     rule="one case = one solve with the trend enabled, and (30%) a deadline, (40%) an exception in a callback, (50%) a crash at a random instant; non-trivial when the solve has more than one loop",
     real=LIB + MPS, assumptions=[A_SIM, A_GEN, A_FLOAT])

prop("C15",
     title="Solves do not influence each other",
     statement="A solve gives the same result whether it is the only one in the process, comes before or after another solve, after one that failed, runs inside the callback of another, or at the same time as another one on a second user thread. The same is true of the other solve.",
     over=["histories", "schedules", "inputs"],
     quant="For every pair of models and option sets, every order and nesting, and every interleaving of two user threads.",
     why="Each test solves one model in one thread; hidden shared state shows only in combination.",
     files=["printemps/solver/", "printemps/model/", "printemps/utility/", "printemps/option/", "printemps/neighborhood/"],
     mech=[("state held per model, solver and search", "printemps/solver/solver.h"), ("generators", "printemps/utility/random.h")],
     observe=["solver result", "user callback", "search state at every clock read"],
     flavours=["F", "N"], quick_s=35, thorough_s=900, level="exploration",
     technique="deterministic simulation: pairs of solves interleaved by the seeded scheduler compared with each alone",
     note="Seeded search. Each solve has a heap of its own, so that object addresses are the same alone and together (some iteration orders depend on addresses). Two user threads are simulated with a build without OpenMP.",
     rule="one case = two random solves alone and then combined in one of five ways; non-trivial when both succeed and, with two user threads, a preemption happened",
     real=LIB, assumptions=[A_SIM, A_GEN])

prop("C16",
     title="A satisfiable model always gives a result",
     statement="A solve of a model that has a feasible solution always ends with a result: it never hangs, crashes or throws, whatever the options, schedule and instant at which the time limit strikes.",
     over=["inputs", "configurations", "schedules", "fault_sequences"],
     quant="For every satisfiable model, option set, schedule, clock behaviour and time limit.",
     why="Tests solve a few models under default options on a quiet machine.",
     files=["printemps/solver/", "printemps/preprocess/", "printemps/model/", "printemps/linear_programming/", "printemps/neighborhood/"],
     mech=[("set-up, presolve and solve", "printemps/solver/solver.h")],
     observe=["how the simulated process ends"],
     flavours=["F"], quick_s=35, thorough_s=1200, level="exploration",
     technique="deterministic simulation: seeded models, options, schedules and deadlines with a work budget as the liveness bound",
     note="Seeded search; a run that exceeds the work budget (several hundred times a normal solve) counts as a hang.",
     rule="one case = one satisfiable (planted or enumerated) instance solved and (50%) cut off at a random instant; non-trivial when satisfiable",
     real=LIB + MPS, assumptions=[A_SIM, A_GEN])

NOT_APPLICABLE = {}
