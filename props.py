"""Which functions carry each property (contracts), and which companion suites stand beside them."""
ALPHA = ["src/alpha.c", "src/global.c", "src/pomdp.c"]
P = {}
def prop(pid, files, fns, suites, technique="contract-based deductive verification (VC generation from the C source, z3/cvc5), plus executable contracts on the real code", note="", bounded=(), level="proof"):
    P[pid] = dict(files=files, fns=fns, suites=suites, technique=technique, note=note, bounded=list(bounded), level=level)

VEC = ["newAlpha", "duplicateAlpha", "copyAlpha"]
prop("P03", ALPHA, ["bestVectorValuePrimed", "bestVectorValue", "bestVectorPrimed", "bestVector", "isLexicographicallyBetterAlpha", "findAlphaVector"], [("alpha", 6)],
     note="Proved for all sets, beliefs and tolerances over real arithmetic.")
prop("P05", ["src/alpha.c", "src/global.c", "src/pomdp.c", "src/random.c", "src/stats.c", "src/lp-interface.c", "src/region.c", "src/parsimonious.c"], ["@src/parsimonious.c", "bestVector", "dominatedAlphaList", "markDominatedAlphaList", "isDominatedVector", "extractMarkedAlphaList", "removeMarkedAlphaList", "removeDominatedAlphaList", "findAlphaVector", "addWitnessToAlphaNode", "clearMarkAlphaList", "markAllAlphaList", "sizeUnmarkedAlphaList", "findUnmarkedVector", "extractUnmarkedVector"], [("alpha", 6), ("core", 6)])
prop("P06", ALPHA, ["@src/alpha.c"], [("alpha", 8)])
prop("P22", ALPHA, ["isLexicographicallyBetterAlpha", "sameAlpha", "isZeroAlpha", "isDominatedVector", "swapPointersAlphaList", "quicksortAlphaList", "sortAlphaList", "dequeueAlphaNode", "enqueueAlphaNode", "renumberAlphaList"], [("alpha", 6)], note="Termination of the recursion is not proved.")
prop("P20", ALPHA, ["appendAlphaList", "newAlpha"], [("alpha", 6)])

SP = ["src/mdp/sparse-matrix.c"]
prop("P08", SP, ["@src/mdp/sparse-matrix.c"], [("mdp", 8)])

PJ = SP + ["src/alpha.c", "src/global.c", "src/pomdp.c", "src/projection.c"]
prop("P01", PJ, ["@src/projection.c", "getAdjustedReward", "valuesRequireScaling", "setPossibleObservations", "worstPossibleValue", "bestPossibleValue", "getEntryMatrix", "appendAlphaList", "appendNodeToAlphaList", "newAlphaNode", "newAlphaList", "newAlpha"], [("core", 8), ("solve", 6)])

prop("P02", ["src/alpha.c", "src/global.c", "src/pomdp.c", "src/cross-sum.c"], ["@src/cross-sum.c", "newAlpha", "newAlphaList", "newAlphaNode", "newAlphaNodeObsSource", "newObsSourceArray", "appendNodeToAlphaList", "duplicateAlphaList"], [("core", 8)])

CM = ["src/random.c", "src/alpha.c", "src/global.c", "src/pomdp.c", "src/common.c"]
prop("P04", CM, ["bestAlphaForBeliefQ", "setBestAlphaForBeliefQ", "setBestAlphasForBeliefV", "oneStepValue", "makeAlphaVector", "addVectorAtBeliefQ", "initCommon", "initWithSimplexCornersQ", "initWithRandomBeliefPointsQ", "bestVector", "findAlphaVector", "appendDuplicateNodeToAlphaList", "duplicateAlphaNode", "addWitnessToAlphaNode"], [("core", 10)],
     note="Beliefs are arbitrary real vectors; the sum over observations is the recursive function csum.")

MD = SP + ["src/alpha.c", "src/global.c", "src/pomdp.c", "src/mdp/mdp.c"]
prop("P09", MD, ["transformBeliefState", "getEntryMatrix"], [("mdp", 8)], note="Proved over real arithmetic for every model, belief, action and observation: the exact Bayes quotient, its sum, its sign.")
prop("P18", MD + ["src/random.c", "src/sim.c"], ["@src/random.c", "@src/sim.c", "transformBeliefState", "getEntryMatrix"], [("mdp", 5), ("grid", 8)],
     note="erand48 is trusted to draw from [0,1) as a function of the seed array; init_randomizer (clock seeding) is trusted.")
prop("P16", ["src/mdp/parse_hash.c"], ["@src/mdp/parse_hash.c"], [("mdp", 8)], note="strlen, strcmp, strcpy are trusted libc contracts; characters 1..127 as the scanner produces them.")

prop("P21", ["src/alpha.c", "src/global.c", "src/pomdp.c", "src/neighbor.c"], ["@src/neighbor.c", "findAlphaVector", "dominatedAlphaList", "markDominatedAlphaList", "isDominatedVector", "newAlphaNode", "prependNodeToAlphaList", "newAlpha"], [("core", 10)])

LPF = ["src/alpha.c", "src/global.c", "src/pomdp.c", "src/stats.c", "src/lp-interface.c", "src/region.c"]
prop("P11", LPF, ["@src/region.c", "LP_newLP", "LP_freeLP"], [("lp", 8)], note="Coefficients within the sparseness tolerance of zero are left out, as the code documents.")
prop("P12", LPF, ["@src/lp-interface.c", "recordLpStats"], [("lp", 8)], note="solve and delete_lp of the bundled lp_solve are trusted (P25); LP_writeLP is trusted to have no effect. The two-pass programs' column layout (precondition of LP_solveLP) is not proved at that caller.")

prop("P14", LPF + SP + ["src/mdp/mdp.c", "src/belief.c", "src/finite-grid.c", "src/common.c", "src/pomdp-solve.c"], ["weakBound", "bellmanError", "FG_computeError", "meetStopCriteria", "startContext", "endContext", "bestVectorValue", "bestVectorValuePrimed", "sameAlphaList"], [("core", 10), ("solve", 8)],
     note="Errors and stopping decisions are proved for all sets, grids and settings, with the region search under its contract (P11). That the loop in solvePomdp stops at the horizon is a bounded check.", bounded=["solvePomdp (iteration count against the horizon)"])
prop("P17", MD + ["src/belief.c", "src/finite-grid.c"], ["@src/belief.c", "genInitialDerivedBeliefStates", "genAllBeliefStates", "searchAndAddBeliefStates", "FG_addSimplexCorners", "FG_addPairwise", "initFiniteGrid", "cleanUpFiniteGrid", "transformBeliefState"], [("grid", 10)],
     note="Generated grids are proved for every model without negative probabilities; readBeliefList and the stage backup improveFiniteGrid are bounded checks (the backup at one belief is proved under P04).", bounded=["improveFiniteGrid", "readBeliefList"])

prop("P19", MD + ["src/pg.c", "src/pg-eval.c"], ["@src/pg-eval.c", "getEntryMatrix"], [("pg", 8)],
     note="The linear system is proved to be the graph's value equations entry by entry (zero entries dropped within the documented tolerance) and the answer to be read back cell by cell; that laspack's Jacobi iteration solves the system is trusted and checked by the companion suite.", bounded=["JacobiIter (bundled laspack)"])
prop("P10", ["src/mdp/mdp.c", "src/mdp/imm-reward.c"] + SP, ["@src/mdp/imm-reward.c", "computeRewards", "newIMatrix", "addEntryToIMatrix", "addEntryToRow", "transformIMatrix", "getEntryMatrix"], [("mdp", 8), ("solve", 6)],
     note="Proved for every model and every sequence of specifications: each form overrides exactly the rewards it speaks about, and the expected rewards are the expectation of what was entered last. The override tree of decision-tree.c (recursive tagged unions) is an assumed contract (last matching value wins), checked by the companion suite.", bounded=["dtInit, dtAdd, dtGet (override tree)", "destroyImmRewards"])
prop("P15", ["src/mdp/parser.c", "src/mdp/mdp.c", "src/mdp/imm-reward.c"] + SP, ["@src/mdp/parser.c", "verifyIntermediateMDP", "allocateIntermediateMDP", "newIMatrix", "addEntryToIMatrix", "addEntryToRow", "removeRowNode", "sumIMatrixRowValues", "newImmReward", "enterImmReward", "doneImmReward"], [("mdp", 10)],
     note="Proved for every model size, cell range and table content: what each grammar action does to the tables, the cursor, the start belief and the error count. That yyparse runs the action its grammar names (generated tables), the error log (ERR_enter: one more error; ERR_dump) and the wildcard as a listed start state (known finding) are outside the proof and covered by the companion suite.", bounded=["yyparse, yylex (generated)", "ERR_enter, ERR_dump", "convertMatrices, readMDP"])
prop("P13", ["src/alpha.c", "src/global.c", "src/pomdp.c", "src/mdp/mdp.c", "src/belief.c", "src/common.c", "src/pg.c"], ["@src/pg.c", "relinkObsSources", "newAlphaNode"], [("pg", 8), ("core", 5), ("solve", 8)],
     note="Proved for all value functions and graphs: choices are linked to the previous stage's vectors, the graph built from the vectors, copies, renumbering, the linked form read from a file, its verification, and the conversion between the two forms. Reading and writing the text itself is a bounded check.", bounded=["LPG_scanf, PG_scanf, PG_read, LPG_read (text input)", "PG_printf, PG_write, APG_* (text output)"])
# interim: bounded companions only, contracts to follow
BT = "executable contracts on the real code (bounded stand-in; contracts of the functions not yet discharged)"
for _p, _s in {"P07": [("solve", 25)]}.items():
    prop(_p, ALPHA, [], _s, technique=BT, level="exploration", bounded=["the whole property"])
