#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

EXPL = ["src/explorers/SimpleReductions.c","src/explorers/Simple_dual_fix.c","src/explorers/StonCols.c",
        "src/explorers/DtonsEq.c","src/explorers/Primal_propagation.c","src/explorers/Parallel_rows.c",
        "src/explorers/Parallel_cols.c"]
CORE = ["src/core/Presolver.c","src/core/CoreTransformation.c","src/core/Activity.c","src/core/Locks.c",
        "src/core/Matrix.c","src/core/Constraints.c"]
API = "run_presolver() in include/PSLP/PSLP_API.h"

p("C01","Infeasible / unbounded verdicts are truthful",
  "If presolve declares a linear program infeasible, it has no feasible point; if it declares it infeasible-or-unbounded, it has no optimal solution. The verdict returned is always exactly one of the four documented values.",
  ["inputs","configurations"],
  "every LP min c'x, lhs<=Ax<=rhs, lb<=x<=ub given as CSR with strictly increasing column indices in every row and no explicit zeros (any signs, infinite or equal sides, empty/singleton/parallel rows and columns) and every combination of settings; data whose coefficients differ by no more than about a factor of 100 and of magnitudes up to about 1e8 (the code's absolute tolerances of 1e-6..1e-9 presuppose that)",
  "The suite has a few dozen fixed LPs and only three or so infeasible ones; a wrong verdict needs a particular coincidence of bounds, signs and reductions applied before it.",
  EXPL+CORE,
  [("infeasibility tests of every reduction","src/explorers/*.c"),("bound updates with tolerance","update_lb/update_ub/fix_col in src/core/CoreTransformation.c, src/explorers/*.c"),
   ("activity based test","check_activities in src/explorers/SimpleReductions.c"),("status propagation","run_presolver in src/core/Presolver.c")],
  [("activities","min/max value of each row and number of infinite contributions","include/core/Activity.h")],[API])
p("C02","The reduced LP is equivalent to the original LP",
  "When presolve returns a reduced problem, that problem is feasible exactly when the original is, bounded exactly when the original is, and its optimal value (objective offset included) equals the original optimal value.",
  ["inputs","configurations"],
  "every LP with an optimum, without a feasible point, or unbounded, and every combination of settings; after any number of reduction rounds; data whose coefficients differ by no more than about a factor of 100 and of magnitudes up to about 1e8 (the code's absolute tolerances of 1e-6..1e-9 presuppose that)",
  "Tests compare the reduced data of hand-picked LPs against hand-computed answers per reduction; interaction of reductions (a substitution that feeds a fixing that feeds a merge) is unsampled.",
  EXPL+CORE,
  [("each reduction rewrites matrix, sides, bounds, costs and offset together","src/explorers/*.c, src/core/CoreTransformation.c"),
   ("activity and lock bookkeeping kept in step with the matrix","src/core/Activity.c, src/core/Locks.c"),
   ("row/column compaction at the end","problem_clean/constraints_clean, src/core/Problem.c, src/core/Constraints.c")],
  [("objective offset","constant accumulated when variables leave the problem","include/core/Problem.h")],[API,"PresolvedProblem fields"])
p("C03","Postsolve returns a feasible, optimal primal point",
  "Feeding postsolve any optimal primal-dual solution of the reduced LP yields an x that satisfies every original constraint and bound and attains the original optimal value. When nothing is left of the problem after presolve, postsolve of the empty solution does the same.",
  ["inputs","configurations","histories"],
  "every LP that has an optimum, every settings combination, and every optimal solution of the reduced LP (vertices and interior points of the optimal face); data whose coefficients differ by no more than about a factor of 100 and of magnitudes up to about 1e8 (the code's absolute tolerances of 1e-6..1e-9 presuppose that)",
  "Tests postsolve one solver-produced solution for each of a few LPs; which of several optimal solutions a user brings, and the order in which reductions were stacked, decides whether a recovery rule fires correctly.",
  ["src/core/Postsolver.c"]+EXPL,
  [("stack of recorded reductions replayed in reverse","postsolver_run in src/core/Postsolver.c"),("records saved by each reduction","save_retrieval_* callers in src/explorers/*.c")],
  [("reduction stack","records of each reduction with rows/values at the time","include/core/Postsolver.h")],["postsolve(); Presolver.sol->x"])
p("C04","Postsolve returns valid dual multipliers and reduced costs",
  "Feeding postsolve any optimal primal-dual solution of the reduced LP yields row multipliers and reduced costs with z = c - A'y, the right sign wherever a side or bound is active, zero where none is (complementary slackness with the recovered x), so the recovered triple is a certificate of optimality of the original LP.",
  ["inputs","configurations","histories"],
  "every LP that has an optimum, every settings combination, and every optimal primal-dual pair of the reduced LP; data whose coefficients differ by no more than about a factor of 100 and of magnitudes up to about 1e8 (the code's absolute tolerances of 1e-6..1e-9 presuppose that)",
  "Dual recovery is checked by tests on a few LPs with one solution each; the degenerate choices (which bound was active, which merged row carries the multiplier) are what distinguish correct from wrong rules.",
  ["src/core/Postsolver.c"]+EXPL,
  [("dual part of each recovery rule","src/core/Postsolver.c"),("bound-origin records for tightened bounds and sides","save_retrieval_{bound,lhs,rhs}_change callers")],
  [("reduction stack","records of each reduction","include/core/Postsolver.h")],["postsolve(); Presolver.sol->{y,z}"])
p("C05","The reduced problem is a well-formed, no larger LP with truthful statistics",
  "A reduced problem handed to the user is valid CSR (monotone row pointers, in-range strictly increasing column indices, finite non-zero coefficients), has lower bounds/sides not above upper ones, is never larger than the input in rows, columns or non-zeros, and the statistics and the unchanged/reduced verdict agree with its dimensions.",
  ["inputs","configurations"],
  "every accepted LP and every settings combination, including problems that vanish completely",
  "Well-formedness is asserted for particular outputs only; stale coefficients, duplicate columns or unsorted rows arise from particular edit sequences on the row store.",
  ["src/core/Presolver.c","src/core/Matrix.c","src/core/Constraints.c","src/core/Problem.c"]+EXPL,
  [("row shifting and compaction","remove_extra_space, shift_row in src/core/Matrix.c"),("statistics","final_status/populate_presolved_problem in src/core/Presolver.c")],
  [],["PresolvedProblem, PresolveStats"])
p("C06","Caller data is copied, never modified and never retained",
  "Presolve never writes to the arrays, settings or solutions the caller passes in, and after construction its results do not depend on the caller's matrix, side, bound or cost arrays any more (they may be overwritten or released).",
  ["inputs","histories"],
  "every LP (CSR with strictly increasing column indices, no explicit zeros) and settings combination, with the caller's arrays made unreadable at any point after construction, and every array sized exactly as the CSR format requires",
  "Tests keep their arrays alive and unchanged during the whole run and over-allocate nothing deliberately; a retained pointer or an off-by-one read of caller memory does not show.",
  ["src/core/Presolver.c","src/core/Matrix.c"],
  [("deep copies","new_presolver in src/core/Presolver.c, matrix_new_no_extra_space in src/core/Matrix.c")],[],["new_presolver(), run_presolver(), postsolve()"])
p("C07","Results are deterministic",
  "The same LP and settings always give bit-for-bit the same verdict, reduced problem, statistics (times aside) and recovered solution, whatever was computed earlier in the process and whatever the heap contains.",
  ["inputs","histories","configurations"],
  "every LP and settings combination, every earlier sequence of presolver uses in the process, every content of freshly allocated memory and every placement of blocks",
  "Tests run once in a process with a benign heap; reads of uninitialised memory and state leaking between instances are invisible to single runs.",
  ["src/core/Workspace.c","src/core/State.c","src/explorers/Parallel_rows.c","src/explorers/Parallel_cols.c","src/core/Presolver.c"],
  [("workspaces initialised before use","src/core/Workspace.c"),("total order in sorts","comparators in src/explorers/Parallel_*.c")],[],["run_presolver(), postsolve() outputs"])
p("C08","Every API call sequence is memory safe and leak free",
  "For valid input no call ever reads or writes outside its own live, initialised memory or executes undefined arithmetic on indices, and releasing the presolver releases everything, at whatever stage and verdict it is released.",
  ["histories","inputs","configurations"],
  "every legal order of construct / presolve / postsolve (any number of times) / release over several instances, every LP incl. zero rows, zero columns, empty rows and columns",
  "The CI runs valgrind only over the tests' own few sequences; an out-of-range read needs a particular position of the edited row in storage.",
  ["src/core/Matrix.c","src/core/Postsolver.c","src/core/Presolver.c","include/data_structures/Vec_macros.h","src/core/State.c"]+EXPL,
  [("growing vectors","include/data_structures/Vec_macros.h"),("ownership of sub-objects","free_* functions in src/core")],[],["all API functions under ASan/UBSan/LSan"])
p("C09","Failure to construct is reported as NULL, cleanly",
  "If any resource request made while constructing a presolver (a memory block or the helper thread) is refused, construction returns no presolver, or a fully working one, without crashing, without touching released memory and without leaking anything.",
  ["fault_sequences","inputs"],
  "every single refused request at every position, and every pair / suffix of refused requests, for LPs with and without rows and columns",
  "No test injects a failure.",
  ["src/core/Presolver.c","src/core/Workspace.c","src/core/State.c","src/core/Constraints.c","src/core/Matrix.c","src/core/Postsolver.c","include/core/pslp_thread.h"],
  [("cleanup path","presolver_clean_up in src/core/Presolver.c"),("checked allocations","RETURN_PTR_IF_NULL users in src/core")],[],["new_presolver() == NULL"])
p("C10","Parallel construction is race free",
  "Construction uses a helper thread; under every interleaving of the two threads no memory is accessed by both without ordering when one writes, construction terminates, and the presolver that results is the same.",
  ["schedules","inputs"],
  "every interleaving of the helper thread and the calling thread at the granularity of individual memory accesses, for LPs of every shape",
  "A test observes one schedule per run, nearly always the same; the helper usually finishes long before or after the conflicting access.",
  ["src/core/Presolver.c","include/core/pslp_thread.h","src/core/Workspace.c","src/core/Matrix.c"],
  [("disjoint work split and join","init_thread_func / new_presolver in src/core/Presolver.c")],
  [("parallel init data","block shared by the two threads","src/core/Presolver.c")],["new_presolver()"])
p("C11","Independent presolver instances can be used concurrently",
  "Threads that each construct, run, postsolve and release their own presolver do not influence each other: no unordered conflicting memory access happens between them and each obtains exactly what it would obtain alone.",
  ["schedules","inputs"],
  "every interleaving of two or more threads each using its own instance",
  "All tests are single-threaded.",
  ["src/explorers/Parallel_rows.c","src/explorers/Parallel_cols.c","src/core/Presolver.c"],
  [("no process-wide mutable state","file-scope variables of src/")],
  [("sort keys","file-scope pointers used by sort comparators","src/explorers/Parallel_rows.c, src/explorers/Parallel_cols.c")],["run_presolver()"])
p("C12","Postsolve can be repeated and interleaved",
  "Each postsolve result depends only on the solution passed in: repeating it, passing other solutions in between, or using other instances in between changes nothing, and the reduced problem stays available and unchanged throughout.",
  ["histories","inputs"],
  "every sequence of postsolve calls with various solutions on one or more instances, for every LP and settings combination",
  "Tests call postsolve once per instance.",
  ["src/core/Postsolver.c","src/core/Presolver.c"],
  [("result arrays fully rewritten by each run","postsolver_run in src/core/Postsolver.c")],[],["postsolve(); Presolver.sol; Presolver.reduced_prob"])
p("C13","Stopping at the time limit leaves a correct result",
  "Whenever the time limit strikes, presolve stops at the next opportunity, and the verdict, the reduced problem and postsolve are as valid as without a limit.",
  ["fault_sequences","inputs","configurations"],
  "every clock reading at which the limit can appear to be exceeded (including at once, and a clock that never advances), for every LP and settings combination",
  "Tests never hit the limit: it is 60 s and they take microseconds.",
  ["src/core/Presolver.c","include/explorers/Timer.h"],
  [("termination test between phases","update_termination in src/core/Presolver.c")],[],["run_presolver(), postsolve()"])
p("C14","Presolve terminates and its internal consistency checks never fail",
  "For every valid LP and settings combination presolve and postsolve terminate, and a development build with all internal consistency checks enabled runs to completion and gives the same verdict and the same result as the production build.",
  ["inputs","configurations"],
  "every valid LP (CSR with strictly increasing column indices, no explicit zeros, lb<=ub, lhs<=rhs, no NaN) and every settings combination",
  "The consistency checks run only on the tests' LPs; reduction loops repeat until nothing changes and nothing but the data bounds them.",
  ["src/core/Debugger.c","src/core/Presolver.c"]+EXPL,
  [("consistency checker","run_debugger in src/core/Debugger.c and assert() throughout"),("progress tests","update_termination/update_complexity in src/core/Presolver.c")],[],["process termination of run_presolver()"])
p("C15","Trivial reductions are exhausted in the result",
  "Unless stopped by the time limit, the problem presolve hands back has no empty row, no singleton row, no variable without constraints and no variable whose bounds coincide.",
  ["inputs","configurations"],
  "every LP and every settings combination; in particular when the last executed reduction creates such an element",
  "Tests look at particular outputs; leftovers appear only when the final reduction round happens to create them.",
  ["src/core/Presolver.c","src/explorers/SimpleReductions.c","src/core/State.c"],
  [("work lists of empty/singleton rows and columns drained before handing back","run_trivial_explorers in src/core/Presolver.c")],
  [("work lists","rows/columns that became empty or singleton","include/core/State.h")],["PresolvedProblem"])
p("C16","The row store behaves like a map under every edit sequence",
  "Inserting, updating and removing coefficients and making room for them, in any order and any layout of the spare space, changes exactly the addressed coefficient and leaves every other row intact, sorted and inside its storage; compaction yields exactly the live rows and columns.",
  ["histories","inputs","configurations"],
  "every sequence of edits up to a depth over every small matrix, every distribution of spare space between rows and every shift limit",
  "Tests perform single edits on a handful of layouts; the choice of direction and distance of a shift depends on the spare space around every neighbour.",
  ["src/core/Matrix.c","src/core/Constraints.c"],
  [("shift left/right within limit","shift_row in src/core/Matrix.c"),("insert or update","insert_or_update_coeff in src/core/Matrix.c"),("compaction","remove_extra_space in src/core/Matrix.c")],
  [("row ranges","start/end of each row inside shared storage","include/core/Matrix.h")],["matrix functions exercised by tests/test_Matrix.h"])
p("C17","Postsolve tolerates solutions that are optimal only approximately",
  "If the reduced solution is optimal only up to a small error (as delivered by an accurate first-order or interior-point solver: well below the feasibility tolerance 1e-6), the recovered solution satisfies feasibility, optimality and dual conditions of the original LP up to a proportional error.",
  ["inputs","configurations"],
  "every LP, settings combination and optimal reduced solution, and every small perturbation of its coordinates within the documented tolerances",
  "Tests pass exact solutions.",
  ["src/core/Postsolver.c","include/core/Numerics.h"],
  [("tolerances in recovery rules","src/core/Postsolver.c")],[],["postsolve()"])
p("C18","A disabled reduction is not performed",
  "A reduction switched off in the settings has no effect: no non-zeros are attributed to it, with every reduction off presolve performs only the always-on clean-up of empty/singleton rows, unconstrained and fixed variables, leaving every other row and column exactly as given; enabling a reduction that finds nothing to do changes nothing, and finite bounds are tightened only if finite_bound_tightening is set. The settings helpers switch every reduction, from any earlier settings, and leave the limits alone.",
  ["inputs","configurations"],
  "every LP and every subset of reductions disabled",
  "Tests switch single reductions on; they do not check that switched-off ones leave the problem alone on arbitrary problems.",
  ["src/core/Presolver.c"],
  [("settings tests around each reduction","run_fast_explorers/run_medium_explorers in src/core/Presolver.c")],[],["run_presolver(), PresolveStats"])
p("C19","Messages and timings are truthful and change nothing",
  "The verbose setting only adds messages: results are bit for bit the same with and without it, and without it a normal presolve and postsolve print nothing. The dimensions and the verdict in the messages are those of the problem; the time statistics are non-negative, the parts do not exceed the whole, and construction, presolve and postsolve times agree with the time that passed between their beginning and end.",
  ["inputs","configurations"],
  "every LP and settings combination, and any speed of the clock (microseconds to seconds between readings)",
  "Tests neither read the console nor control the clock.",
  ["src/core/Presolver.c","include/explorers/Timer.h"],
  [("messages","print_start_message, print_end_message, print_infeas_or_unbnd_message in src/core/Presolver.c"),("timers","RUN_AND_TIME, GET_ELAPSED_SECONDS")],[],["stdout; PresolveStats"])
p("C20","Postsolve maps feasible points to feasible points of the same value",
  "Also a point of the reduced LP that is feasible but not optimal is mapped by postsolve to an x that satisfies every constraint and bound of the original LP, with the same objective value (offset included), whatever multipliers accompany it.",
  ["inputs","configurations","histories"],
  "every LP, every settings combination and every feasible point of the reduced LP (vertices, mixtures of them, far out on rays); data whose coefficients differ by no more than about a factor of 100 and of magnitudes up to about 1e8",
  "A solver stopped early, or a heuristic, delivers feasible points only; tests postsolve optimal solutions only, where complementary slackness hides errors of the primal recovery.",
  ["src/core/Postsolver.c"]+EXPL,
  [("primal part of every recovery rule","src/core/Postsolver.c"),("cost transfer and offset","src/explorers/StonCols.c, src/explorers/DtonsEq.c, src/explorers/Parallel_cols.c")],
  [("reduction stack","records of each reduction","include/core/Postsolver.h")],["postsolve(); Presolver.sol->x"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
