#!/usr/bin/env python3
# writes MANIFEST.json from the table below
import json
EX="bounded exhaustive model checking of the real code (explicit enumeration of executions, oracle by basis enumeration)"
checks={
"C01":(EX,"model_checking","Every LP of the listed spaces under every listed setting is presolved by the code under test and each infeasible/unbounded verdict is compared with an independent solver that enumerates all bases. Trusts the oracle (verified against itself by simplex on larger bases) and the tolerance 1e-7."),
"C02":(EX,"model_checking","Same enumeration; the reduced LP is solved by the same enumeration of all bases and its status and optimal value (offset included) are compared with those of the original LP."),
"C03":(EX,"model_checking","Same enumeration; every optimal vertex of the reduced LP (and interior points of the optimal face) is postsolved and the recovered point is checked for feasibility and optimality in the original LP."),
"C04":(EX,"model_checking","Same enumeration; every pair of optimal primal and dual vertices of the reduced LP is postsolved and the recovered multipliers are checked as a certificate: stationarity, signs, dual objective equals the optimum."),
"C05":(EX,"model_checking","Same enumeration; structural checks of the reduced problem and the statistics of every run."),
"C06":("exhaustive enumeration of API histories over page-protected caller memory","model_checking","The caller's arrays lie in pages that are read-only during construction and inaccessible afterwards; settings read-only; solutions accessible only during their own postsolve. Every LP of the spaces; results are compared with an ordinary run."),
"C07":("exhaustive enumeration of environment states (heap contents and placement, thread order, earlier and standing instances) with bitwise comparison","model_checking","Each LP is processed under each environment of the list; all outputs are compared bit for bit."),
"C08":("exhaustive enumeration of API histories under AddressSanitizer/UBSan and an instrumented heap","model_checking","Every listed history on every LP; the heap has red zones, detects double and invalid releases, writes after release and leaks."),
"C12":("exhaustive enumeration of postsolve histories up to depth 3","model_checking","All sequences of at most three operations over three solutions and two other instances are executed; every result is compared bitwise with a fresh presolver's."),
"C13":("exhaustive fault enumeration: the clock exceeds the limit at every reading","model_checking","The clock is owned by the explorer; for every LP every reading is made the first one beyond the limit, and the result is checked like C01-C05."),
"C14":(EX+", differential against the development build","model_checking","The development build (assertions and Debugger.c enabled) runs on every LP and setting of the spaces, must not fail an internal check, must terminate within 15 s, and must give the bitwise same outcome as the production build."),
"C15":(EX,"model_checking","Same enumeration; no reduced problem of any run may contain an empty row, singleton row, empty column or fixed column."),
"C17":(EX+" with all single-coordinate and uniform perturbations","model_checking","Every optimal pair is perturbed in each coordinate and jointly by 1e-9 and 1e-8; errors of the recovered triple must stay below 200 times the perturbation times the data magnitude (up to 100 times more where they shrink in proportion with the perturbation: ill-conditioned substitutions)."),
"C18":("bounded exhaustive model checking against an executable model of the always-on clean-up","model_checking","For every LP every setting that enables nothing applicable must give exactly what an independent model of the clean-up gives; other settings must respect attribution and sub-matrix rules."),
"C19":("exhaustive enumeration of LPs, settings and clock speeds with captured output","model_checking","Output and clock belong to the explorer. Every LP of the spaces runs with messages off and on under five clock speeds; digests, printed numbers and time statistics are compared."),
"C20":(EX,"model_checking","Every vertex of the feasible set of the reduced LP (enumeration of all bases with zero costs), points on its rays and their centroid are postsolved with four different choices of multipliers; the recovered point must be feasible for the original LP with the same objective value."),
"C09":("exhaustive fault enumeration: every refused request, every suffix and every pair","fault_enumeration","Every allocation and the thread creation of every construction is refused once, in pairs and in suffixes; the instrumented heap detects any misuse or leak."),
"C10":("stateless model checking of the two construction threads at memory-access granularity with happens-before race detection","model_checking","Both threads of every construction run under a scheduler that owns every memory access (compiler instrumentation, own runtime). Without an unordered conflicting pair all interleavings of an execution are equivalent; that is decided on every LP of the spaces in both extreme orders, and on the test bases additionally after every single preemption (every pair of preemptions on a few), with the presolver's results compared with the sequential ones. Trusts that clang instruments every access of the library; library functions with state are modelled."),
"C11":("stateless model checking of instances in different threads at memory-access granularity with happens-before race detection","model_checking","Two threads each take an LP through its whole life (create, presolve, postsolve, free); pairs range over each LP with itself and eight fixed others, in both orders, and with every single preemption at a step touching memory that could be shared on the test bases. Any unordered conflicting access or any difference to the results of the lone instance is a violation."),
"C16":("exhaustive enumeration of the states of the row store, every edit of every state executed on the real code and compared with a map model","model_checking","States are all layouts (pattern of non-zeros x spare space per row) within the bounds; every edit leads to a layout again, so checking each single edit of each layout covers edit sequences of any length inside the bounds. The heap is instrumented."),
}
ENABLED="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20".split()
REASON={}
m={"version":1,"setup_cmd":"bash build.sh mc san mat race","checks":[],"not_applicable":[]}
for k in sorted(checks):
    t,l,n=checks[k]
    if k in ENABLED: m["checks"].append({"property":k,"quick_cmd":"bash check.sh "+k,"thorough_cmd":"VERIF_TIER=thorough bash check.sh "+k,"evidence_file":"evidence/%s.json"%k,"technique":t,"level":l,"level_note":n})
    else: m["not_applicable"].append({"property":k,"reason":REASON.get(k,"machinery not finished yet")})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); print(len(m["checks"]),"checks")
