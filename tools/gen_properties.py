#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
AZP="region/p_regions/azp.py"; AU="region/p_regions/azp_util.py"; UT="region/util.py"; OF="region/objective_function.py"
ME="region/max_p_regions/exact.py"; MH="region/max_p_regions/heuristics.py"; PE="region/p_regions/exact.py"; SK="region/skater/skater.py"; CG="region/csgraph_utils.py"
P=[]
def add(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
add("C01","Every p-regions heuristic fit yields a valid contiguous partition",
 "Whenever a fit of AZP, AZPSimulatedAnnealing, AZPBasicTabu or AZPReactiveTabu returns, labels_ assigns every area exactly one region, uses exactly n_regions distinct regions, and every region is connected in the contiguity graph (also when the graph has several connected components). A satisfiable request (from the number of components up to the number of areas, with or without initial labels) does return instead of crashing. The same holds at every intermediate state shown to a move strategy, and for fits made after an earlier fit failed or was interrupted.",
 ["schedules","inputs","histories","fault_sequences"],
 "every sequence of random decisions (initial spanning-tree cuts, region order, candidate order, annealing coins, tabu picks), every graph/attribute/parameter combination, every sequence of fits on the same instance including failed and interrupted ones",
 "The tests run one connected 3x3 grid with one seed per variant and compare with one optimum; no test has several components, n_regions of 1 or n, another random stream, or a second fit.",
 [AZP,AU,UT,CG],[("donor connectivity test before a move",AZP+" _azp_connected_component"),("boolean_assert_feasible revert",AZP+" AZPTabu._make_move"),("generate_initial_sol / assert_feasible",UT)],
 ["labels_ after fit*","labels argument of AllowMoveStrategy.__call__"],
 [("labels","current region label of each area",AZP),("region_neighbors","areas bordering each region, kept incrementally",AZP)])
add("C02","A random start splits every component into exactly the requested regions",
 "Without initial labels a heuristic fit starts from a random division that covers every area, has exactly n_regions non-empty connected regions, gives every connected component at least one region and never lets a region span two components. When the request cannot be met (more regions than areas, fewer regions than components) the fit raises ValueError and publishes nothing.",
 ["schedules","inputs"],"every sequence of random decisions made while distributing regions over components and cutting the spanning trees; every graph with one to several components",
 "One doctest checks the region count on a path with an unseeded draw; component distribution is never exercised.",
 [UT,AZP],[("distribute_regions_among_components",UT),("_randomly_divide_connected_graph",UT),("generate_initial_sol",UT)],
 ["labels_ of a fit whose move strategy rejects every move","generate_initial_sol(adj, n_regions)"])
add("C03","Greedy search never ends worse than it started and tracks its objective",
 "For AZP, AZPBasicTabu and AZPReactiveTabu the objective value of labels_ is never larger than that of the starting labels. With the default move strategy a move is accepted exactly when it does not increase the objective, and at every point of a run the objective value tracked by the strategy equals the objective recomputed from the current labels.",
 ["schedules","inputs","histories"],"every order of recipient regions and candidate areas, every move history, all supported objective functions",
 "Tests only compare the final partition of one 3x3 grid with the known optimum under one seed; a drifting tracked objective or an occasional worsening move goes unseen.",
 [AZP,AU,OF],[("AllowMoveAZP.__call__",AU),("step 7 loop on objective_val",AZP)],
 ["labels_","AllowMoveStrategy.objective_val","calls of a wrapped AllowMoveAZP"],[("objective_val","objective tracked incrementally",AU)])
add("C04","Move evaluation is exact and free of side effects, even when interrupted",
 "For every objective function, center, reduction and metric, the change reported by update() for moving an area to a region equals the objective of the labels after the move minus that before it. Evaluating a move leaves the labels and attributes as they were at every instant another thread can look, and also when the metric or center raises midway.",
 ["histories","schedules","fault_sequences","inputs"],"every reachable labelling and candidate move, every interleaving of several evaluators sharing one labels array, every point at which the metric/center callback fails",
 "Tests never compare update() with a recomputation, never raise from a callback and never evaluate from two threads.",
 [OF],[("ObjectiveFunctionPairwise.update",OF),("ObjectiveFunctionCenter.update",OF)],["ObjectiveFunction.update","ObjectiveFunction.__call__","the labels argument"])
add("C05","Greedy search stops only where no single move improves",
 "When AZP returns and no move of equal value was taken during the run, no border area can be moved to an adjacent region with a strictly better objective while its old region stays non-empty and connected. The local search phase of the max-p heuristic is converged in the same sense with respect to moves that also keep the donor region at or above the threshold.",
 ["schedules","inputs"],"every order of recipients and candidates, every random start, all graphs and attribute sets",
 "Tests see whether one run finds one known optimum; stopping early elsewhere, or a stale candidate list, is not observable to them.",
 [AZP,AU,MH],[("region_neighbors bookkeeping",AZP),("repeat until no improvement",AZP),("AllowMoveAZPMaxPRegions objective_val",AU)],["labels_"])
add("C06","Simulated annealing follows the Metropolis rule on a cooling schedule",
 "A move that does not worsen the objective is always taken; a worsening move is taken exactly when the random draw is below exp(-increase/temperature). Within one fit the temperature starts at init_temperature and only changes by factors of cooling_factor, never upward; observers hear of every move made, and of the SA-move limit when, and only when, the count of worsening moves reached it since the last reset.",
 ["schedules","inputs","histories"],"every sequence of random draws (including draws placed just either side of the acceptance probability), every temperature and cooling factor, repeated fits",
 "Tests run one seed per API; acceptance probability, temperature sequence and observer notifications are not looked at.",
 [AU,AZP],[("AllowMoveAZPSimulatedAnnealing.__call__",AU),("cooling loop step b-d",AZP)],
 ["objective update/evaluation calls","draws of the random stream","observer callbacks"],[("t","temperature",AU),("sa","number of SA moves",AU)])
add("C07","Every heuristic terminates within a bounded number of steps",
 "A fit of any heuristic (AZP, simulated annealing with finite max_iterations, basic and reactive tabu, max-p heuristic) ends after a bounded number of steps whatever the random decisions, also with ties, identical attributes or short tabu lists. After a callback fault has stopped a fit, repeating it completes within the same bound.",
 ["schedules","inputs","fault_sequences"],"every sequence of random decisions including adversarial ones, tie-heavy attribute sets, all tabu lengths and termination parameters",
 "Tests use one data set whose attributes are nearly all distinct; a run that never ends on ties cannot show there.",
 [AZP,MH,UT],[("termination conditions visited/reps_before_termination",AZP),("strict decrease of objective",AZP),("grow_regions / assign_enclaves loops",MH)],["number of simulated steps until fit returns"])
add("C08","Every max-p heuristic result is contiguous and meets the threshold",
 "Whenever MaxPRegionsHeu returns, every area belongs to exactly one region, every region is connected, and in every region the sum of each spatially extensive attribute (non-negative inputs) reaches its threshold, for every local search (AZP, simulated annealing, tabu). With negative values the local search never turns a feasible partition into an infeasible one. If each connected component can reach the threshold the fit returns; otherwise it raises and publishes no labels.",
 ["schedules","inputs","histories","fault_sequences"],"every sequence of random decisions in construction, enclave assignment and local search, every attribute/threshold combination, every choice of local search, repeated fits",
 "Tests run one 2x2 grid with seed 0 and the default local search; with four areas local search can never violate a threshold.",
 [MH,AU,AZP],[("grow_regions",MH),("assign_enclaves",MH),("AllowMoveAZPMaxPRegions",AU)],["labels_"])
add("C09","The max-p heuristic keeps the most regions found, then the best objective",
 "The number of regions in the result equals the largest number of regions any construction attempt of that fit produced; local search never loses a region. Every attempt with the most regions is handed to the local search. Among all partitions returned by the local search for that number of regions the published one has the smallest objective value, and it is not worse than the constructed partition it started from when the local search is greedy.",
 ["schedules","inputs"],"every sequence of random decisions over all construction attempts, every max_it",
 "On the 2x2 grid of the tests every attempt constructs the same number of regions.",
 [MH],[("max_p selection in construction phase",MH),("best_partition selection",MH)],["labels_","calls made to the local_search object passed by the user"])
add("C10","Exact p-regions returns an optimum or an error, whatever the solver does",
 "PRegionsExact (flow, order, tree) with a working solver publishes a contiguous partition into exactly n_regions regions with minimum total within-region dissimilarity, whichever optimal solution the solver picks among ties and whatever rounding within integer tolerance it reports. If the solver cannot be started, dies, is stopped, reports no optimum, or leaves a missing, cut off, unreadable or altered solution file (another status, a changed value), or the request is infeasible, the fit raises and never publishes wrong labels; a later fault-free fit succeeds.",
 ["fault_sequences","inputs","schedules"],"every solver outcome and I/O fault at every stage (spawn, model write, exit code, solution file), every choice among optimal solutions, all small instances",
 "Tests solve one instance with a solver that always succeeds and has a unique optimum far from the size limits of the models.",
 [PE,UT],[("_flow/_order/_tree model and decoding",PE),("get_solver_instance",UT)],["labels_","exceptions of fit*"],(),"none: the subprocess and file seams of PuLP are replaced from outside")
add("C11","Exact max-p returns an optimum or an error, whatever the solver does",
 "MaxPRegionsExact with a working solver publishes a contiguous partition in which every region reaches the threshold, with the maximum possible number of regions and, among those, minimum within-region dissimilarity, for every tie choice and rounding of the solver. On any solver or I/O failure or an unreachable threshold the fit raises and never publishes wrong labels; a later fault-free fit succeeds.",
 ["fault_sequences","inputs","schedules"],"every solver outcome and I/O fault at every stage, every choice among optimal solutions, all small instances incl. identical attributes",
 "Tests solve one 4-area instance with a solver that always succeeds.",
 [ME,UT],[("model and decoding",ME),("get_solver_instance",UT)],["labels_","exceptions of fit*"],(),"none: the subprocess and file seams of PuLP are replaced from outside")
add("C12","A failed or interrupted fit leaves the last published result intact",
 "If a fit of any estimator ends with an exception - a user callback, the solver, the disk or memory failing, an invalid or infeasible request, or an interrupt at any point - the result attributes (labels_; n_regions of AZP and its tabu variants; n_regions, method, metric, solver of PRegionsExact; current_labels_, minimum_spanning_forest_ and _trace of SKATER) still hold exactly what the last successful fit published, or stay unset if there was none. Only an interrupt that lands after the new result is complete may leave that complete result instead. This includes the case where the published labels were passed back in as initial labels. A label array which a fit handed out is never changed by any later fit, successful or not.",
 ["crash_points","fault_sequences","histories"],"an exception at every call or loop point inside the package, or in every callback invocation, of every estimator, after any history of fits",
 "No test makes a fit fail and then looks at the estimator.",
 [AZP,MH,ME,PE,SK],[("result attributes assigned after the work is done","end of every fit_from_scipy_sparse_matrix / Spanning_Forest.fit")],["labels_, n_regions, method, solver, metric, current_labels_ after a failed fit"])
add("C13","Fits never modify what the caller passed in",
 "Adjacency matrices, attribute arrays, neighbour and attribute dictionaries, graphs, W objects, GeoDataFrames, initial labels, thresholds and spatially extensive attributes have the same content at every moment a callback or another thread can look during a fit, and after it, whether the fit succeeds, fails or is interrupted. This holds for every estimator and entry point.",
 ["crash_points","fault_sequences","inputs","schedules"],"every estimator, entry point and input container; every moment of the fit at which user code runs; every fault or interrupt point",
 "No test compares inputs before and after, let alone during or after a failing fit.",
 [AZP,MH,ME,PE,SK,OF,UT],[("copies made by separate_components / sub_adj_matrix",UT),("W.sparse use",SK)],["the caller's objects"])
add("C14","A reused estimator behaves like a fresh one",
 "For the same inputs and the same random decisions, a fit on an estimator that already ran other fits - successful, failed or interrupted, on other maps and with other parameters - gives the same result as on a newly built estimator. A local search object handed to the max-p heuristic likewise behaves afterwards as if it had not been used by it.",
 ["histories","crash_points","fault_sequences"],"every history of earlier fits and faults on the instance followed by any fit",
 "Every test builds a new estimator and fits once.",
 [AZP,MH,AU,ME,PE,SK],[("reset_tabu / reset / start_new_component",AZP),("local_search handling",MH)],["labels_ of the last fit"],
 [("visited","solutions seen so far (tabu and annealing)",AZP),("allow_move_strategy","strategy object carried between fits",AZP)])
add("C15","A seeded fit depends on its own seed only and leaves global randomness alone",
 "With random_state given (also on a local search passed to the max-p heuristic), the results of an estimator's fits are a function of its inputs and seed: not of the process-wide random state, of other estimators created or run before, between or during its fits, of the operating system's entropy, of the clock or of the hash seed. Creating and fitting a seeded estimator does not change the process-wide random stream.",
 ["histories","schedules","configurations"],"every history of other random activity in the process (at any callback), every entropy source value, clock behaviour and PYTHONHASHSEED",
 "Tests seed and fit at once in a quiet process with PYTHONHASHSEED=0.",
 [AZP,MH,UT,AU],[("random.seed in constructors",AZP),("random draws",UT)],["labels_","random.getstate()"])
add("C16","Estimators running in different threads do not affect each other",
 "Fits run concurrently in several threads, each on its own seeded estimator but sharing inputs, metric and objective objects, each give exactly the result the same fit gives when run alone, for every interleaving, including exact fits whose solver processes overlap. A fault in one thread's fit does not disturb the others. Whatever the interleaving, process-wide settings and standard streams are afterwards what they were before.",
 ["schedules","fault_sequences"],"every interleaving of package code lines, random draws, callbacks and solver waits of several threads; faults in any subset of them",
 "All tests are single-threaded.",
 [AZP,AU,MH,OF,UT,PE,ME,SK],[("per-instance state; no shared mutable state intended",AZP),("default-argument objective functions shared by all calls",AZP)],["labels_ of each thread's estimator"])
add("C17","The result does not depend on the order in which the map was delivered",
 "For a given seed, fit_from_dict and fit_from_networkx give every area the same region whatever the insertion order of areas, neighbours, nodes and edges, the kind or iteration order of the neighbour collections, repeated neighbour entries, or the hash seed. Attributes, thresholds and initial labels stay attached to the area they were given for, and dict, networkx, W, GeoDataFrame (rook or queen) and sorted-id matrix input of the same map agree.",
 ["schedules","inputs","configurations"],"every delivery order and duplication of area, neighbour and edge records; every hash seed; all estimators with dict and networkx entry points",
 "Tests insert areas 0..n-1 in order and use integer ids.",
 [UT,AZP,MH,ME,PE],[("scipy_sparse_matrix_from_dict",UT),("array_from_graph_or_dict / array_from_dict_values",UT),("nx.to_scipy_sparse_matrix calls","fit_from_networkx of all estimators")],["labels_ mapped back to area names"])
add("C18","SKATER regions stay contiguous, above quorum and nested through every cut",
 "A valid Spanning_Forest.fit request returns. Whenever fit returns, each region is connected in W, each region made by a cut has at least quorum areas, and there are as many regions as requested (plus the number of components of a disconnected map in 'increase' mode, and never fewer than the components) unless it warned that no further valid cut exists. The forest it prunes is a minimum spanning forest of W under the dissimilarity, identical areas included; each recorded trace step splits exactly one region in two by the best-scoring valid cut, with the score of the documented formula. A map with an island below the quorum is rejected. This holds after earlier failed or interrupted fits, when dissimilarity, center or reduction callbacks fail or return NaN at any call, and whatever the clock does.",
 ["histories","fault_sequences","crash_points","inputs"],"every history of fits on the object, every callback failure point, NaN/inf result and clock jump; all small weighted graphs incl. identical areas and islands",
 "The only SKATER tests need a download, compare nothing and are not run.",
 [SK],[("find_cut / make_cut / score",SK),("minimum spanning forest construction",SK)],["current_labels_","_trace","minimum_spanning_forest_","OptimizeWarning"])
add("C19","Conversion helpers keep every value at its area's index",
 "The array/dict/graph/dataframe conversion helpers return, for every input, exactly the given values in the documented order and shape.",
 ["inputs"],"every dictionary, graph and data frame",
 "Doctests show single examples.",
 [UT],[("array_from_* , dataframe_to_dict, dict_from_graph_attr",UT)],["return values"])
add("C20","The feasibility predicates agree with graph connectivity",
 "assert_feasible, boolean_assert_feasible, is_connected and sub_adj_matrix accept exactly the labellings whose regions are connected (and, when asked, whose region count matches).",
 ["inputs"],"every graph and labelling","Unit tests use two-node graphs.",
 [UT,CG],[("assert_feasible",UT),("is_connected",CG)],["exceptions and return values"])
add("C21","Invalid arguments are rejected before any work is done",
 "Unknown metrics, methods, solvers and contiguity names, non-matching dictionaries, non-positive region counts and cooling factors outside (0, 1) raise ValueError.",
 ["inputs"],"every argument value","Only a few error paths are tested.",
 [UT,PE,ME,MH,AZP],[("check_solver / _check_method / get_metric_function",UT)],["exceptions"])
add("C22","A fault inside a fit reaches the caller and no fit leaves residue",
 "When a callback of the user (metric, center, reduction, objective, move strategy, local search) raises, or an interrupt or memory failure lands inside a fit of any estimator, the fit ends with that very exception (or one chained to it): it never returns a result computed around the failure and never reports something unrelated. However a fit ends, the working directory, environment, numpy error state and print options, warning filters, signal handlers, recursion limit, standard streams and other process-wide settings are what they were before; a successful fit, solver included, leaves no file behind.",
 ["crash_points","fault_sequences","histories"],"every exception type at every callback invocation, an interrupt at every call or loop point inside the package, every solver failure, of every estimator and entry point",
 "No test lets a callback fail, or looks at the process after a fit.",
 [AZP,AU,MH,ME,PE,SK,OF,UT],[("no exception handlers around callbacks",OF+", "+AZP+", "+MH+", "+SK),("solver run and its temporary files",UT+", "+PE+", "+ME)],["exception of fit*","process-wide settings before and after fit*","files in the scratch and working directories"])
add("C23","Tabu search makes the best admissible move and honours its limits",
 "AZPBasicTabu asks its move strategy, in every state, for the legal move with the smallest objective change that the tabu list does not exclude if that change is not positive; otherwise for a tabu move which improves, if there is one; otherwise for the least worsening non-tabu move. The tabu list holds the reverses of the last tabu_length moves made on this component of this fit. The search ends when, and only when, a solution was met repetitions_before_termination times or no move is left. AZPReactiveTabu makes the best non-tabu move while each iteration improves, for at most max_iterations iterations, and publishes the best solution it met.",
 ["histories","schedules","inputs","fault_sequences"],"every history of accepted and refused moves, all tabu lengths and termination parameters, every tie choice, fits after failed and interrupted ones",
 "Tests compare the final partition of one 3x3 grid with the optimum under one seed; which moves are tabu, aspiration moves and the termination count cannot be seen there.",
 [AZP],[("_azp_connected_component of AZPBasicTabu / AZPReactiveTabu",AZP),("AZPTabu._make_move, _is_possible, reset_tabu",AZP)],["calls of allow_move_strategy","labels_"],[("tabu","forbidden reverse moves",AZP)])
add("C24","Max-p construction grows just-sufficient regions, most similar first",
 "In every construction attempt of MaxPRegionsHeu each constructed region is connected and reaches the threshold, only because of the area added last; each step adds, of all unassigned areas bordering the region, one with the smallest total dissimilarity to it; the areas left over (enclaves) contain no connected group that could form a further region. Assigning the enclaves keeps every constructed region and adds each enclave to the bordering region with the smallest total dissimilarity, so that every region stays connected and every area is assigned.",
 ["schedules","inputs","histories"],"every sequence of random seeds and tie choices in every construction attempt, every attribute/threshold combination, fits after failed ones",
 "Tests run one 2x2 grid with seed 0 where regions have at most two areas and no choice exists.",
 [MH],[("grow_regions / find_best_area",MH),("assign_enclaves / find_best_region_idx",MH)],["return values of the public construction methods (overridden in a subclass)"])
add("C25","Simulated annealing follows its documented schedule",
 "A fit of AZPSimulatedAnnealing runs AZP again and again, each time from the labels of the run before: at one temperature until the limit of SA-moves is reached, max_iterations runs were made or a run changed nothing; then, unless this result was seen repetitions_before_termination times already, it multiplies the temperature by cooling_factor and goes on. It stops when, and only when, that repetition limit is reached or nonmoving_steps_before_stop cooling steps passed without a move, and publishes the labels of the last run. The temperature starts at init_temperature in every fit, and no count survives from an earlier fit, successful, failed or interrupted.",
 ["histories","schedules","fault_sequences"],"every sequence of random draws, all schedule parameters, every sequence of fits on the instance including failed and interrupted ones",
 "Tests compare the final partition of one 3x3 grid with the optimum; how many runs at which temperature led there cannot be seen.",
 [AZP,AU],[("AZPSimulatedAnnealing.fit_from_scipy_sparse_matrix",AZP),("sa_moves_alert / move_made_alert, reset, update_temperature",AZP+", "+AU)],["runs of the inner AZP (public fit method)","decisions of the annealing strategy","labels_"],[("sa_moves_term_reached, move_made, visited","state of the schedule",AZP)])
add("C26","Estimators can be saved and restored at any point of their history",
 "Pickling (any protocol) or deep-copying an estimator - new, fitted, after failed or interrupted fits, with any move strategy or local search of the package, with a user's metric, affinity, center or reduction that can itself be saved - succeeds and leaves it unchanged, and so does restoring it after the process has crashed. The restored estimator shows exactly the result published at the time of the save (of the fits completed by then, if it was saved in the middle of one) and gives in every later fit the same result as the original with the same random decisions, the state of its own generator being part of what is saved. Original and copy are independent: no fit of one changes results or random decisions of the other, even if it runs while a fit of the other is in progress.",
 ["histories","crash_points","fault_sequences"],"every estimator, history of fits and faults, save format and moment of the save, any sequence of later fits",
 "No test pickles or copies an estimator.",
 [AZP,AU,MH,ME,PE,SK,UT],[("instance attributes of the estimators",AZP),("AllowMoveAZPMaxPRegions.__getattr__",AU),("Move",UT),("Spanning_Forest.__init__",SK)],["pickle.dumps / pickle.loads / copy.deepcopy","labels_ and the other result attributes"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
