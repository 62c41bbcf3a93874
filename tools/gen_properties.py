#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Back-projection is the exact discounted expectation of next-stage value",
 "For every model, action, observation and next-stage value vector, the back-projected vector's value in a state is discount times the sum over successor states of transition probability times observation probability times the next-stage value, plus an equal share (one per observation) of the immediate reward of that state and action. "
 "The projected set of an action/observation pair holds exactly one such vector per next-stage vector, in the same order and each remembering the vector it came from; an observation that cannot occur after the action yields the single vector made of the reward share alone. "
 "Costs are handled by negation, so larger is always better.",
 ["inputs", "configurations"], "all models (sizes, sparse probabilities, rewards or costs, discounts), all next-stage vector sets",
 "The suite back-projects only inside one run of tiger.95 (2 states, 3 actions, 2 observations, dense) and counts vectors; no other sparsity pattern, impossible observation, cost model or provenance link is examined.",
 ["src/projection.c", "src/pomdp.c", "src/mdp/sparse-matrix.c", "src/alpha.c"],
 [("sum over the stored successors of a state", "src/projection.c: projectVector"), ("one projected vector per next-stage vector, source link", "src/projection.c: projectList"),
  ("table over actions and observations", "src/projection.c: setAllProjections, makeAllProjections"), ("which observations can occur", "src/pomdp.c: setPossibleObservations"), ("sign/shift of the immediate reward", "src/pomdp.c: getAdjustedReward")],
 observe=["projected vector sets after each stage", "saved value function"])
prop("P02", "Cross-sum is exactly all pairwise sums, with merged provenance",
 "The cross-sum of two vector sets contains, in order, one vector per pair made of an element of the first and an element of the second set, whose components are the sums of the pair's components and nothing else. "
 "Each result carries the first set's action and remembers its two parents, and, when observation choices are tracked, the observation choices of both operands: every observation covered by either operand points at that operand's choice. The operand sets are left unchanged.",
 ["inputs"], "all pairs of vector sets of any size and dimension, plain projections or earlier cross-sums",
 "The suite only counts the final vectors of one two-observation problem; order, provenance and operands are never inspected and three or more observations never arise.",
 ["src/cross-sum.c", "src/alpha.c"],
 [("pairwise sums", "src/cross-sum.c: crossSum, crossSumOne..."), ("merging observation choices", "src/cross-sum.c: setAlphaListSources")])
prop("P03", "Value lookup returns the maximum over the set and a maximising vector",
 "Looking a belief up in a non-empty set of vectors returns a member vector and a value; the value is the dot product of a member with the belief, equals the returned vector's up to the comparison tolerance, and is at least every other member's up to that tolerance; among candidates within the tolerance the lexicographically larger vector is preferred. "
 "An empty set yields no vector and the worst possible value, and the lookup changes nothing.",
 ["inputs"], "all vector sets, beliefs and tolerances",
 "The unit tests never call the lookup; the end-to-end run exercises it only on tiger vectors in two states.",
 ["src/alpha.c", "src/global.h"],
 [("dot product", "src/global.c / src/alpha.c: dotProduct"), ("running best with tolerance and tie-break", "src/alpha.c: bestVectorValuePrimed, bestVectorValue, bestVector"), ("lexicographic comparison", "src/alpha.c: isLexicographicallyBetterAlpha")])
prop("P04", "A belief-point backup is the sum of the best projections at that belief",
 "The vector built for a belief and an action is, in every state, the sum over observations of the projected vector that is best at that belief for that observation, it records exactly those choices, and it carries that action. "
 "The backup over all actions returns the best of these vectors over all actions, and its value at the belief is the maximum over actions of the sum of the per-observation maxima. A vector already present is not added a second time.",
 ["inputs"], "all projection tables, beliefs, tolerances",
 "No unit test calls the backup; the end-to-end run takes it only at tiger's witness points.",
 ["src/common.c", "src/alpha.c"],
 [("per-observation best choice", "src/common.c: bestAlphaForBeliefQ, setBestAlphasForBeliefV"), ("sum of the choices", "src/common.c: makeAlphaVector, oneStepValue"), ("duplicate suppression", "src/common.c: addVectorAtBeliefQ")])
prop("P05", "Pruning never lowers the value at any belief",
 "Every simple pruning step only removes a vector for which another vector that remains in the set is strictly better in every state or equal to it within the tolerance, so that the maximum over the set is unchanged at every belief; vectors that survive keep their components, action and provenance. "
 "A vector is reported as dominated only if some member is strictly better in every state, and marking the best vectors at chosen beliefs marks only vectors that are best there.",
 ["inputs"], "all vector sets and tolerances; all beliefs",
 "No unit test prunes a set; the end-to-end run prunes only tiger's sets and looks at the final count.",
 ["src/parsimonious.c", "src/alpha.c"],
 [("component-wise comparison", "src/alpha.c: isDominatedVector, dominatedAlphaList, markDominatedAlphaList, removeDominatedAlphaList"), ("domination sweep", "src/parsimonious.c: dominationCheck"), ("best at corners", "src/parsimonious.c: markBestAtSimplexVertices, markBestAtRandomPoints"), ("empty-region shortcuts", "src/parsimonious.c: isEmptyRegionSimpleCheck")])
prop("P06", "Vector-set operations preserve membership, order and contents",
 "Appending, prepending, enqueuing, dequeuing, extracting, uniting, copying and removing change the sequence of vectors exactly as named and nothing else: the recorded length always equals the number of members, no member is lost, duplicated or shared between two sets, and members keep components, action, numbering and provenance. "
 "A copy is equal to its original member by member in all of these and shares no storage with it.",
 ["inputs", "histories"], "all sequences of set operations on sets of any length",
 "Unit tests cover a handful of hand-written lists of the separate utility container and none of the solver's own vector sets.",
 ["src/alpha.c", "src/double-vector.c", "src/index-list.c"],
 [("link/length maintenance", "src/alpha.c: appendNodeToAlphaList, prependNodeToAlphaList, dequeueAlphaNode, enqueueAlphaNode, unionTwoAlphaLists"), ("extraction and removal", "src/alpha.c: extractAlphaNode, extractMarkedAlphaList, removeMarkedAlphaList, removeAlphaNode.."), ("copying", "src/alpha.c: duplicateAlphaNode, copyAlphaList, duplicateAlphaList")])
prop("P07", "Each exact method's stage result has the Bellman-backup value",
 "For every exact method the set produced by one stage has, at every belief, the value of the Bellman backup of the previous set: the maximum over actions of the sum over observations of the best projected value, up to the tolerances of the pruning steps. "
 "In particular every observation's projections are combined exactly once, every action contributes, and models with a single observation or a single action are treated the same way.",
 ["inputs", "configurations"], "all models, methods (enumeration, incremental pruning in its variants, two-pass, witness) and stages",
 "The end-to-end test runs a single model with the default method and only counts vectors.",
 ["src/enumeration.c", "src/inc-prune.c", "src/two-pass.c", "src/witness.c", "src/pomdp-solve.c"],
 [("cross-sum over observations", "src/enumeration.c: enumerationByQ; src/inc-prune.c: improveIncPrune"), ("restricted comparison sets", "src/inc-prune.c: getGenIpCompareList"), ("union over actions", "src/enumeration.c: enumerationByV; src/pomdp-solve.c: improveByQ")])
prop("P08", "A sparse matrix holds exactly the entries written to it",
 "After any sequence of writes to a matrix under construction, reading a row/column gives the last value written there (or the accumulated value for accumulating writes) and zero where nothing was written, with each row's columns strictly increasing. "
 "Converting it to the final form and reading it back gives the same values entry by entry and the same row sums; row sums and multiplication use exactly the stored entries.",
 ["inputs", "histories"], "all write sequences, sizes and values (values closer to zero than the documented threshold count as zero)",
 "No unit test touches the matrix code; the end-to-end run writes one small dense model.",
 ["src/mdp/sparse-matrix.c"],
 [("sorted row lists", "src/mdp/sparse-matrix.c: addEntryToRow, addEntryToIMatrix, accumulateEntryInIMatrix"), ("conversion", "src/mdp/sparse-matrix.c: transformIMatrix"), ("lookup", "src/mdp/sparse-matrix.c: getEntryMatrix, sumRowValues")])
prop("P09", "Belief updates follow Bayes' rule",
 "Updating a belief with an action and an observation gives, for every state, observation probability times the predicted probability of that state, divided by the total probability of the observation, so the result is a probability distribution. "
 "If the observation has zero probability the update reports failure instead of producing a distribution.",
 ["inputs"], "all models, beliefs, actions and observations",
 "No unit test calls the belief update.",
 ["src/mdp/mdp.c", "src/belief.c", "src/belief-state.c"],
 [("prediction, weighting and normalisation", "src/mdp/mdp.c: transformBeliefState"), ("belief sets", "src/belief.c")])
prop("P10", "The last matching reward specification in the model file decides a reward",
 "The reward for an action, state, next state and observation is the value of the last specification in the file that matches them, wildcards and whole rows or matrices included, and zero if none matches. "
 "The immediate reward of a state and action is the expectation of these rewards over successors and observations, and the recorded smallest reward is the minimum over all states and actions.",
 ["inputs", "histories"], "all sequences of reward specifications of every form and all queries",
 "The only model used by the tests has a few plain reward lines; overriding order, rows, matrices and wildcards never interact.",
 ["src/mdp/imm-reward.c", "src/mdp/decision-tree.c", "src/mdp/mdp.c"],
 [("specification records", "src/mdp/imm-reward.c: newImmReward, enterImmReward, doneImmReward, getImmediateReward"), ("override tree", "src/mdp/decision-tree.c: dtAdd, dtGet"), ("expectation", "src/mdp/mdp.c: computeRewards")])
prop("P11", "Region programs encode exactly the beliefs where a vector beats a set",
 "The program set up for a vector and a comparison set has exactly one constraint per member of the set, saying that the vector exceeds that member by at least the margin variable at the belief, plus the constraint that the belief sums to one with non-negative components, and it maximises the margin. "
 "A belief is reported as a witness only if the program was solved with a margin above the tolerance, and the reported belief is the program's solution.",
 ["inputs", "configurations"], "all vectors, comparison sets, dimensions, sparsity patterns",
 "No test looks at a generated program; the end-to-end run only sees programs for two states.",
 ["src/region.c", "src/two-pass.c"],
 [("counting and filling sparse columns", "src/region.c: countNonZeroesLP..., setUpRegionConstraintsNew, addExtraVarColumn, setUpRegionLP"), ("reading the answer", "src/region.c: findRegionPoint")])
prop("P12", "The LP layer hands the solver the same program and returns its answer",
 "Every program built by the callers reaches the bundled solver with the same variables, bounds, constraint senses, coefficients, right-hand sides and optimisation direction. "
 "The status, objective value and variable values reported back are those of the solver, in the caller's variable order and sign, and an infeasible or unbounded program is never reported as optimal.",
 ["inputs"], "all programs (any number of rows and columns, any sparsity, any mix of senses)",
 "No test inspects the conversion; the region programs of tiger use one fixed shape.",
 ["src/lp-interface.c"],
 [("conversion", "src/lp-interface.c: LP_loadLpSolveLP"), ("solution read-back", "src/lp-interface.c: LP_solve, extractSolution")])
prop("P13", "Policy graphs link every node and observation to the right successor",
 "The policy graph written with a value function has one line per vector, in the vectors' numbering, giving its action and for every observation the number of the previous stage's vector chosen there. "
 "Reading a policy graph back yields the same actions and successors, with the special markers for missing successors preserved, and inconsistent graphs are rejected.",
 ["inputs", "histories"], "all value functions with their provenance, all policy graphs",
 "The suite never looks at a policy graph.",
 ["src/pg.c", "src/common.c", "src/alpha.c"],
 [("linking choices to vectors of the previous stage", "src/common.c: relinkObsSources"), ("writing", "src/pg.c: writePolicyGraph, PG_printf, LPG_printf"), ("reading and conversion", "src/pg.c: LPG_scanf, LPG_read, PG_convertLPGToPG")])
prop("P14", "Stopping and error bounds follow the documented formulas",
 "With the Bellman criterion iteration stops only when the largest difference between consecutive value functions over all beliefs guarantees the requested precision through the discount factor; with the exact criterion only when consecutive sets are equal up to the tolerance; with the weak criterion only when the largest vector-wise difference is below it. "
 "The reported difference between two value functions is the largest gap in either direction over the examined beliefs, and a positive horizon is never exceeded.",
 ["inputs", "configurations"], "all pairs of consecutive value functions, discounts, tolerances and criteria",
 "The one end-to-end run stops once, with default settings.",
 ["src/pomdp-solve.c", "src/common.c"],
 [("criteria", "src/pomdp-solve.c: meetStopCriteria, weakBound"), ("difference of value functions", "src/common.c: bellmanError"), ("epoch loop", "src/pomdp-solve.c: solvePomdp")])
prop("P15", "Model-file entries set exactly the cells they name, and bad models are rejected",
 "Every transition, observation or start specification sets exactly the matrix cells it names, with wildcards covering every action, state or observation and rows or matrices filled left to right, top to bottom; uniform, identity and reset mean what they say. "
 "Start-state lists become the uniform distribution over the listed (or not excluded) states. A file with too few or too many values, or any distribution whose sum is off by more than the tolerance, is rejected.",
 ["inputs"], "all specification sequences and model sizes",
 "The suite parses one model file.",
 ["src/mdp/parser.y", "src/mdp/parser.c", "src/mdp/mdp.c"],
 [("cell ranges", "src/mdp/parser.y: setMatrixContext"), ("entry", "src/mdp/parser.y: enterMatrix, enterUniformMatrix, enterIdentityMatrix, enterResetMatrix, enterStartState, endStartStates"), ("checks", "src/mdp/parser.y: checkMatrix, checkProbs; src/mdp/mdp.c: verifyIntermediateMDP")])
prop("P16", "Names declared in a model file denote their position in the declaration",
 "The n-th name declared for states, actions or observations is looked up as number n of that kind, independently of names of other kinds, and a name that was not declared is reported as unknown. "
 "Declaring the same name twice for one kind is refused and changes no numbering.",
 ["inputs", "histories"], "all declaration sequences and lookups",
 "The only model parsed declares seven distinct names.",
 ["src/mdp/parse_hash.c"],
 [("numbering and lookup", "src/mdp/parse_hash.c: H_enter, H_lookup")])
prop("P17", "Finite-grid search only uses real beliefs and backs up each exactly",
 "Every belief in a generated grid is a probability distribution over the states, no belief is stored twice within the tolerance and the requested maximum is respected. "
 "Each finite-grid stage returns, for every grid belief, a vector whose value there is the exact one-step backup at that belief, and lists of beliefs keep their recorded length and contents.",
 ["inputs", "configurations"], "all models, grid kinds and sizes",
 "No test runs the finite-grid method.",
 ["src/finite-grid.c", "src/belief.c"],
 [("grid generation", "src/belief.c: genAllBeliefStates, genBelief...; src/finite-grid.c"), ("point-wise backup", "src/finite-grid.c: improveFiniteGrid")])
prop("P18", "Random beliefs and simulated steps are valid, bounded and reproducible",
 "A random distribution has non-negative components summing to one, a random integer lies in the requested closed range and a random real within its bounds. "
 "A simulated observation has positive probability under the belief and action that produced it, and a run given the same random seed draws the same numbers.",
 ["inputs", "histories"], "all generator outputs, sizes, ranges, seeds, models and beliefs",
 "No test uses random numbers or a seed.",
 ["src/random.c", "src/sim.c"],
 [("distribution", "src/random.c: setRandomDistribution"), ("ranges", "src/random.c: getRandomInt, getRandomDouble"), ("seed", "src/random.c: setRandomSeed, setRandomSeedFromString"), ("observation draw", "src/sim.c: getBeliefObservation")])
prop("P19", "Policy-graph evaluation solves the graph's own value equations",
 "For every node and state the linear system built for a policy graph states that the value equals the immediate reward of the node's action plus the discounted expectation, over successor states and observations, of the value of the successor node; repeated successors accumulate. "
 "The value reported for a belief is the largest over nodes of the belief-weighted value, together with a node attaining it.",
 ["inputs"], "all policy graphs, models and beliefs",
 "No test evaluates a policy graph.",
 ["src/pg-eval.c"],
 [("coefficients", "src/pg-eval.c: PGE_setRowCoefs, PGE_setPGCoefs"), ("best node", "src/pg-eval.c: PGEC_val")])
prop("P20", "Saved value functions read back as the same vectors in the same order",
 "Reading a saved value-function file gives the same number of vectors with the same actions and, to the printed precision, the same components in the same order; a requested maximum reads that many leading vectors. "
 "A truncated or malformed file is reported as an error instead of being accepted or read forever.",
 ["inputs"], "all value functions; all file contents",
 "The suite counts lines of one written file and reads none.",
 ["src/alpha.c"],
 [("writing", "src/alpha.c: writeAlphaList, saveAlphaList"), ("reading", "src/alpha.c: readAlphaList")])
prop("P21", "Witness search considers every one-choice neighbour",
 "The neighbours generated for a vector are exactly the vectors obtained by replacing one observation's chosen projection with another one, each with the components that replacement gives, and none is skipped unless it is already known or strictly dominated by a known one. "
 "Adding neighbours never changes the vectors of the solution set.",
 ["inputs"], "all vectors with their choices and all projection tables",
 "No test runs the witness method.",
 ["src/neighbor.c", "src/alpha.c"],
 [("enumeration of replacements", "src/neighbor.c: addAllNeighbors"), ("duplicate/domination filter", "src/neighbor.c: addNeighbor")])
prop("P22", "Sorting permutes the set into lexicographic order and renumbers it",
 "Sorting a set of vectors leaves the same vectors with the same contents, arranged so that no vector is lexicographically smaller than its predecessor in the solver's sorting direction, with numbers running from zero. "
 "Tolerance comparison, zero test and lexicographic comparison of vectors agree with their component-wise definitions.",
 ["inputs"], "all vector sets of any length and dimension, all tolerances",
 "No unit test sorts; the end-to-end run sorts nine two-state vectors without looking at the order.",
 ["src/alpha.c"],
 [("sort", "src/alpha.c: sortAlphaList, quicksortAlphaList"), ("comparisons", "src/alpha.c: sameAlpha, isZeroAlpha, isLexicographicallyBetterAlpha")])
prop("P23", "Repeated solving converges to the optimal value function",
 "With a discount below one, running stages without a horizon limit ends and the final value function is within the requested precision of the optimal value at every belief.",
 ["inputs", "histories"], "all models and settings", "One model converges in the suite.",
 ["src/pomdp-solve.c"], [("value iteration", "src/pomdp-solve.c: solvePomdp")])
prop("P24", "Interrupts and resource limits stop cleanly between stages",
 "An interrupt signal or an exceeded time or memory limit ends the run at the next safe point with the last complete value function saved.",
 ["schedules", "fault_sequences"], "all arrival points of signals and limits", "No test sends a signal or sets a limit.",
 ["src/signal-handler.c", "src/pomdp-solve.c"], [("handlers", "src/signal-handler.c")])
prop("P25", "The bundled LP solver returns optimal solutions",
 "For every bounded feasible program the bundled simplex implementation returns a feasible point with the optimal objective value within its tolerance, and reports infeasible programs as such.",
 ["inputs"], "all linear programs", "The suite solves only tiger's programs.",
 ["src/lp-solve"], [("simplex", "src/lp-solve/solve.c")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
