#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

p("C01", "Every recorded fitness is the evaluator's score of that very genome",
  "After the initial evaluation and after every generation, the fitness held by each individual equals what the user's evaluator returns for that individual's current genome, and in every generation each individual of the population is evaluated exactly once. This holds for the thread and the process executor, for the map and the submit evaluation method, for any number of workers, and for any order in which the workers finish.",
  ["schedules", "inputs", "configurations"],
  "all encodings, evaluators, populations, executors, worker counts, executor methods, completion orders and generations",
  "the tests evaluate a handful of populations, only through map, and never look at which score ended up on which individual under a hostile completion order",
  ["eckity/evaluators/simple_population_evaluator.py", "eckity/evaluators/simple_individual_evaluator.py", "eckity/fitness/simple_fitness.py", "eckity/genetic_operators/genetic_operator.py", "eckity/algorithms/algorithm.py"],
  [("results are paired with individuals in submission order", "SimplePopulationEvaluator._evaluate"), ("fitness is invalidated when an operator is applied", "GeneticOperator.apply_operator")],
  ["after_generation event of the algorithm", "calls of the user's evaluate_individual"])

p("C02", "Faults reach the caller; a finished run leaves no workers behind",
  "If the user's evaluator, operator, selection method, creator, termination checker, statistics or event callback raises at any point of a run, the evolve call raises that error to the caller instead of completing with missing or made-up fitness; an evaluation worker process that dies also makes evolve raise. When evolve returns normally, all of its evaluation worker threads and processes have ended.",
  ["fault_sequences", "configurations", "schedules"],
  "every point (generation, call number) at which one user component raises, every executor, method and worker count",
  "no test injects a fault in a component of a run or looks at the workers after it",
  ["eckity/evaluators/simple_population_evaluator.py", "eckity/algorithms/algorithm.py", "eckity/algorithms/simple_evolution.py", "eckity/multi_objective_evolution/nsga2_evolution.py", "eckity/before_after_publisher.py", "eckity/breeders/simple_breeder.py"],
  [("results of the futures are consumed", "SimplePopulationEvaluator._evaluate"), ("executor.shutdown", "Algorithm.finish")],
  ["outcome of evolve()", "live threads and child processes after evolve()"])

p("C03", "Best and worst reports are exact and the best of run never degrades",
  "After every generation of a single-objective run, the reported best of generation and worst of generation are individuals of the current population with the best and the worst (bloat-adjusted) fitness under the configured direction. The best of run is at least as good as every individual evaluated since the start of the run, never gets worse, and keeps the genome and fitness it was evaluated with for the rest of the run and after it; executing the algorithm after the run gives the result of executing that individual.",
  ["inputs", "histories", "configurations"],
  "all fitness landscapes (ties, negative, infinite, huge and tiny values), directions, bloat weights, elitism settings, operators and run lengths",
  "tests only check that a run improved on one or two benchmark problems",
  ["eckity/algorithms/simple_evolution.py", "eckity/algorithms/algorithm.py", "eckity/evaluators/simple_population_evaluator.py", "eckity/subpopulation.py", "eckity/fitness/simple_fitness.py", "eckity/fitness/gp_fitness.py"],
  [("scan for the best individual", "SimplePopulationEvaluator._evaluate"), ("best_of_run_ update", "SimpleEvolution.generation_iteration"), ("selection clones the individuals that operators then change in place", "SelectionMethod subclasses")],
  ["after_generation event", "algorithm attributes best_of_run_, best_of_gen, worst_of_gen", "algorithm.execute"])

p("C04", "Each generation is a full population of fresh, unaliased individuals",
  "In every generation of a single-objective run the population has exactly the configured number of individuals; they are distinct objects with ids that are unique over the whole run, and they share no mutable genome, fitness or history state with each other or with the previous generation. Each of them is recorded as a clone of an individual of the previous generation, carries the current generation number, and lists the selection method and the operators applied to it in that generation only.",
  ["histories", "inputs", "configurations"],
  "all population sizes, encodings, selection methods, operator sequences (arities included), elitism rates and run lengths",
  "tests check clone() once on one individual and never follow the identity of individuals through a run",
  ["eckity/breeders/simple_breeder.py", "eckity/individual.py", "eckity/genetic_operators/selections/tournament_selection.py", "eckity/genetic_operators/selections/fp_selection.py", "eckity/genetic_operators/selections/elitism_selection.py", "eckity/algorithms/algorithm.py", "eckity/genetic_operators/genetic_operator.py"],
  [("clone on selection", "Individual.clone"), ("fill up to the size of the source population", "select of the selection methods"), ("slice assignment of operator results", "SimpleBreeder._apply_operators")],
  ["after_generation event: population individuals"])

p("C05", "Elites survive unchanged and the best fitness never regresses",
  "With an elitism rate e and population size n, the round(e*n) best individuals of each generation (by bloat-adjusted fitness under the configured direction) are present with unchanged genomes in the next generation, and no genetic operator is applied to those copies, while all other selected individuals are handed to the operators. Hence, with a deterministic evaluator and at least one elite, the best fitness of the population never gets worse from one generation to the next.",
  ["inputs", "histories", "configurations"],
  "all elitism rates (0 to 1), population sizes, operator arities, probabilities and fitness landscapes",
  "the elitism test selects two elites out of one list; no test runs a generation with elitism and operators together",
  ["eckity/breeders/simple_breeder.py", "eckity/genetic_operators/selections/elitism_selection.py", "eckity/subpopulation.py"],
  [("elites are copied first and bypass the operators", "SimpleBreeder.apply_breed"), ("n_elite", "Subpopulation.__init__")],
  ["after_generation event", "individuals handed to recording operators"])

p("C06", "A seed determines the whole run",
  "Two runs with the same configuration and random seed produce the same population genomes and fitness in every generation and the same best individual, whatever the executor kind, number of workers, evaluation method, evaluation delays, previous state of the global random generators, runs made earlier in the process, or the interpreter's hash seed; the seed reported by a run that was not given one reproduces it too, and an explicitly given generation seed (0 included) determines the seeds of the generations. The configured random generator is seeded with the run's seed at the start and with a new 32-bit seed in every generation, also when the seed is the largest 32-bit value, so generations do not repeat the same random choices.",
  ["schedules", "configurations", "inputs"],
  "all seeds, encodings (vectors, typed and untyped trees, multi-objective), operators, executors, worker counts and ambient states",
  "tests compare at most two runs of one configuration in one process",
  ["eckity/algorithms/algorithm.py", "eckity/random/rng.py", "eckity/multi_objective_evolution/nsga2_front_sorting.py", "eckity/genetic_operators/selections/fp_selection.py"],
  [("set_random_seed / set_generation_seed / next_seed", "Algorithm"), ("random and numpy seeded together", "RNG.set_seed")],
  ["after_generation event", "set_seed calls on a user-supplied RNG"])

p("C07", "Runs stop exactly when they should, after the right number of generations",
  "A run evaluates the initial population and then performs generations 1, 2, ... until the first generation after which a configured termination checker (or any one in a list of them) says to stop, or the maximal generation, whichever comes first; the checkers are asked once for the initial population and once per generation, with the current population, best of run and generation number, and the reported final generation is the one in which the run ended. The supplied checkers decide as documented: fitness within the threshold of the target; best fitness unchanged for the given number of consecutive generations; largest finite crowding positive and below the threshold.",
  ["inputs", "histories", "configurations"],
  "all maximal generations (0 included), checker combinations, fitness histories, thresholds and stagnation lengths",
  "tests feed each checker two or three values and never check the number of generations of a run",
  ["eckity/algorithms/algorithm.py", "eckity/termination_checkers/threshold_from_target_termination_checker.py", "eckity/termination_checkers/best_fitness_stagnation_termination_checker.py", "eckity/multi_objective_evolution/crowding_termination_checker.py"],
  [("evolve / evolve_main_loop / should_terminate", "Algorithm")],
  ["final_generation_, generation_num", "calls to recording termination checkers", "answers of the supplied checkers on synthetic histories"])

p("C08", "Events fire exactly once, in order, with the right data",
  "Every run publishes init once, after the initial population is evaluated and before any generation; then after-generation exactly once per generation performed (once for generation 0 if the run stops there), carrying that generation's number, population, best of generation and best of run; and evolution-finished once, last. Every action of an operator publishes before-operator and after-operator exactly once around it; a callback is called exactly once per publication from its registration until it is unregistered, with the publisher as sender, the callbacks of an event are called in the order of their registration, and callbacks may register or unregister while being called.",
  ["histories", "configurations", "programs"],
  "all sequences of register, unregister, act and publish, all publishers (algorithms, breeders, evaluators, operators, selections, user-defined ones with their own event names) and all runs",
  "the publisher tests register one or two callbacks once",
  ["eckity/before_after_publisher.py", "eckity/event_based_operator.py", "eckity/algorithms/algorithm.py", "eckity/algorithms/simple_evolution.py", "eckity/multi_objective_evolution/nsga2_evolution.py", "eckity/creators/creator.py", "eckity/genetic_operators/selections/selection_method.py"],
  [("subscriber table per event", "BeforeAfterPublisher"), ("publish calls", "Algorithm.evolve, evolve_main_loop, initialize")],
  ["callback invocations (event, sender, payload)"])

p("C09", "A clone is equal to, and independent of, its original",
  "Cloning an individual of any encoding gives an individual with the same genome, bounds, types and configuration, a fresh id, a reference to the id it was cloned from, and an empty selection and operator history. No later change to either of the two (operators, genome edits, fitness updates, history) can be observed through the other, and cloning changes nothing in the original.",
  ["inputs", "histories"],
  "all individuals reachable by creators and operator sequences, and all later modifications",
  "tests clone one small individual and compare a few fields",
  ["eckity/individual.py", "eckity/fitness/simple_fitness.py", "eckity/multi_objective_evolution/nsga2_fitness.py", "eckity/genetic_encodings/ga/vector_individual.py", "eckity/genetic_encodings/gp/tree/tree_individual.py"],
  [("deepcopy", "Individual.clone"), ("fitness is not copied unless cached", "SimpleFitness.__getstate__")],
  ["snapshots of both individuals around modifications"])

p("C10", "Selection picks by fitness, returns clones and leaves the source untouched",
  "A selection method adds to the destination clones of source individuals until it is as large as the source (elitism: adds exactly the requested number of best individuals, best first), keeps what the destination already contained in place, and does not change the source list, its order or its individuals. A tournament winner is never worse than another participant: with tournaments of size m drawn with replacement the i-th ranked of n distinct individuals wins with probability ((n-i+1)^m-(n-i)^m)/n^m, and without replacement the m-1 worst individuals never win; fitness-proportionate selection never prefers a worse individual to a better one and rejects negative fitness.",
  ["inputs", "configurations"],
  "all populations, tournament sizes, directions, bloat weights, destination prefills and random seeds",
  "tests run single selections on two individuals and never look at the selection distribution or at the source afterwards",
  ["eckity/genetic_operators/selections/tournament_selection.py", "eckity/genetic_operators/selections/fp_selection.py", "eckity/genetic_operators/selections/elitism_selection.py", "eckity/genetic_operators/selections/selection_method.py"],
  [("sampling and winner scan", "TournamentSelection.select"), ("probability vector", "FitnessProportionateSelection.select")],
  ["select() results", "before/after snapshots of the source"])

p("C11", "Vector genomes always stay in their domain",
  "Every vector individual made by the creators or reached by any sequence of the library's vector operators (and by whole runs) has exactly its declared length, every cell within its bounds (a common pair or one pair per cell), and cells of its type: integers for integer vectors, floats for float vectors, zeros and ones for bit strings; the individual's own bounds check agrees with this for every vector. Creators reach every value of small integer domains, and place the values of a user-supplied gene creator, asked once per individual and cell, at their cells.",
  ["inputs", "histories", "configurations"],
  "all lengths (1 and 2 included), bounds (degenerate, negative, per-cell), operators, parameters and operator sequences",
  "tests create a few vectors with one pair of bounds",
  ["eckity/genetic_encodings/ga/vector_individual.py", "eckity/genetic_encodings/ga/int_vector.py", "eckity/genetic_encodings/ga/float_vector.py", "eckity/genetic_encodings/ga/bit_string_vector.py", "eckity/creators/ga_creators/simple_vector_creator.py", "eckity/genetic_operators/mutations/vector_random_mutation.py", "eckity/genetic_operators/mutations/vector_n_point_mutation.py", "eckity/genetic_operators/crossovers/vector_k_point_crossover.py"],
  [("bounded sampling", "get_random_number_in_bounds"), ("success check and retry", "VectorNPointMutation")],
  ["vector of every individual after every operator application"])

p("C12", "K-point crossover exchanges aligned parts at exactly k cut points",
  "Crossing two vectors of equal length with k cut points changes them so that at every position the two children hold exactly the two parents' values of that position, and the origin of the values switches between the parents exactly k times along the vector. All sets of k interior cut points are possible, each about equally often; nothing is lost, duplicated or moved to another position.",
  ["inputs", "configurations"],
  "all lengths, all admissible k, all vector encodings and random seeds",
  "tests check two fixed cut point lists on vectors of length 4",
  ["eckity/genetic_operators/crossovers/vector_k_point_crossover.py"],
  [("sample of k sorted points and alternating swap", "VectorKPointsCrossover.apply")],
  ["parent and child vectors around apply_operator"])

p("C13", "Vector mutation changes only what it should; failures roll back",
  "A vector mutation with n points changes no more than n cells of each individual (exactly n for continuous values) and nothing else, bit flips toggle exactly the chosen number of cells, every cell can be chosen, and Gaussian mutation shifts cells by noise with the configured mean and deviation. An operator that may fail tries up to its number of attempts, stops at the first success, and when all attempts fail runs its failure handling exactly once, leaving all individuals as they were before (or, for Gaussian mutation, applying a uniform mutation within the bounds).",
  ["inputs", "configurations", "fault_sequences"],
  "all vector mutations, n, attempts, success checkers rejecting any pattern of attempts, arities, bounds and seeds",
  "tests apply each mutation once with one seed and do not exercise retries and rollback",
  ["eckity/genetic_operators/mutations/vector_n_point_mutation.py", "eckity/genetic_operators/mutations/vector_random_mutation.py", "eckity/genetic_operators/failable_operator.py"],
  [("retry loop", "FailableOperator.apply"), ("clone and revert", "VectorNPointMutation.attempt_operator")],
  ["vectors around apply_operator", "calls to scripted success checkers and attempts"])

p("C14", "Trees are always well-formed and well-typed",
  "Every tree made by the creators, or reached from such trees by any sequence of the library's tree operators, is a complete prefix expression: each function has exactly as many argument subtrees as its arity, nothing is left over, all functions and terminals come from the configured sets or the constant range type, and depth and size agree with the expression. In typed programs the root has the root type and every argument (variables, declared constants and random constants alike) has the type its function declares for it.",
  ["inputs", "histories", "programs"],
  "all function and terminal sets (typed and untyped, with and without constants, including boolean, integer and subclass types), depths, operators and operator sequences",
  "tests check a few hand-built trees and single operator applications",
  ["eckity/genetic_encodings/gp/tree/tree_individual.py", "eckity/genetic_encodings/gp/tree/tree_node.py", "eckity/genetic_encodings/gp/tree/utils.py", "eckity/creators/gp_creators/grow.py", "eckity/creators/gp_creators/full.py", "eckity/creators/gp_creators/half.py", "eckity/genetic_operators/crossovers/subtree_crossover.py", "eckity/genetic_operators/mutations/subtree_mutation.py", "eckity/genetic_operators/mutations/erc_mutation.py"],
  [("type-directed node choice", "random_function, random_terminal, random_subtree"), ("subtree replacement", "replace_subtree")],
  ["tree node lists after every creation and operator application"])

p("C15", "Tree creators honour their depth, size and constant contracts",
  "Given a depth range (a, b), every leaf of a full tree is at depth b, every leaf of a grown tree is between depth a and b (a node in between is a leaf with the pruning probability), and ramped half-and-half produces exactly the requested number of individuals with, for each depth d from a to b, equally many grown trees of depth at most d and full trees of depth d (the remainder being full trees of depth b). Random constants lie within the given range, cover it and have its number type, all functions and terminals of the sets can occur, and the created individuals carry the requested fitness direction and bloat weight.",
  ["inputs", "configurations"],
  "all depth ranges (0 included), arities, population sizes, constant ranges, prune probabilities, directions and bloat weights",
  "tests create one tree per creator with one depth range",
  ["eckity/creators/gp_creators/grow.py", "eckity/creators/gp_creators/full.py", "eckity/creators/gp_creators/half.py", "eckity/creators/gp_creators/tree_creator.py", "eckity/genetic_encodings/gp/tree/tree_individual.py"],
  [("create_tree recursion", "GrowCreator, FullCreator"), ("depth groups", "HalfCreator.create_individuals")],
  ["create_individuals results"])

p("C16", "Subtree crossover only exchanges same-typed subtrees, and can reach all",
  "Subtree crossover of m trees (m >= 2) replaces, in each of them, one complete subtree by the complete subtree taken from the previous tree in cyclic order, of the same type, and changes nothing else; the nodes of all trees together are conserved and no node ends up shared between trees. Every non-root node (in untyped programs the root as well) can be chosen, also when equal nodes occur elsewhere in the tree; if no same-typed subtree exists the trees are left unchanged.",
  ["inputs", "histories", "programs"],
  "all pairs and tuples of trees, types, duplicated nodes and seeds",
  "tests swap given subtrees of two hand-built trees",
  ["eckity/genetic_operators/crossovers/subtree_crossover.py", "eckity/genetic_encodings/gp/tree/tree_individual.py"],
  [("random_subtree / replace_subtree", "Tree"), ("cyclic swap", "SubtreeCrossover")],
  ["trees around apply_operator, with node identities"])

p("C17", "Tree mutations are local, typed and bounded",
  "Subtree mutation replaces exactly one complete subtree of a tree by a newly generated one of the same type whose leaves are at the configured depths, and leaves every other node as it was; constant mutation changes the value of exactly one numeric constant by Gaussian noise with the configured mean and deviation, keeping its type and every other node, or changes nothing if there is none. Every admissible node can be chosen, and mutating one individual never changes another.",
  ["inputs", "histories", "programs"],
  "all trees, types, depth ranges, duplicated nodes, noise parameters and seeds, and operators reused over many individuals",
  "tests mutate one small tree once",
  ["eckity/genetic_operators/mutations/subtree_mutation.py", "eckity/genetic_operators/mutations/erc_mutation.py", "eckity/genetic_encodings/gp/tree/tree_individual.py"],
  [("GrowCreator on the mutated individual's own sets", "SubtreeMutation"), ("gaussian noise on one leaf", "ERCMutation")],
  ["trees around apply_operator, with node identities"])

p("C18", "Executing a tree computes the expression it denotes",
  "Executing a tree on keyword arguments gives the value of its expression with those variable values, the printed program evaluates to the same value, and executing it on a 2-d array gives one value per row: row i's value is what the keyword execution on row i gives, also for constant programs and integer arrays. Missing or unknown variables and empty trees are rejected with an error, numeric constants of the terminal set need no argument, and execution changes neither the tree nor its inputs. The terminal set derived from an array names its columns x0, x1, ... in order (with each column's Python type if asked for), so programs over it execute on that array.",
  ["inputs", "programs"],
  "all trees over user-defined and library functions, all variable names, constants, argument shapes and dtypes",
  "tests execute a few hand-built trees on a few values",
  ["eckity/genetic_encodings/gp/tree/tree_individual.py", "eckity/genetic_encodings/gp/tree/tree_node.py", "eckity/genetic_encodings/gp/tree/utils.py"],
  [("recursive prefix evaluation", "Tree._execute"), ("column binding", "generate_args"), ("textual form", "Tree.__str__")],
  ["execute results against an independent interpreter"])

p("C19", "The function library is total, elementwise and closed",
  "Each library function computes its documented value elementwise on numbers and arrays: applying it to arrays gives at every position the value of applying it to the scalars at that position, mixing constants and arrays included. The protected functions never raise and give a finite value for every finite argument whose mathematical result is representable (exactly 0 in the protected range of division, inverse and logarithm), functions do not modify their arguments, and typed functions return values of their declared type, so any well-typed composition of them evaluates.",
  ["inputs", "programs"],
  "all finite arguments (0, denormal, near the protection threshold, negative, huge), shapes, scalar and array mixes, and compositions",
  "tests evaluate each function at one or two points",
  ["eckity/base/typed_functions.py", "eckity/base/untyped_functions.py", "eckity/base/utils.py"],
  [("numpy ufuncs and np.where guards", "typed_functions, untyped_functions")],
  ["function results against a scalar reference model"])

p("C20", "Fitness comparison is a strict order in the configured direction",
  "Comparing two evaluated individuals says that the first is better exactly if its bloat-adjusted fitness is strictly greater (when higher is better) or strictly smaller (otherwise), where the adjustment worsens the score by bloat weight times size under either direction, and never touches the reported pure fitness; equality holds exactly for equal adjusted scores. Reading or comparing fitness that has not been set, or was invalidated by an operator, raises an error instead of giving a stale value; a clone has the score of its original only where scores are to be kept (cache) and are not relative to other individuals; any individual is better than none.",
  ["inputs", "histories"],
  "all finite scores, ties, sizes, bloat weights, directions, and sequences of set, invalidate and compare",
  "tests compare three pairs of numbers",
  ["eckity/fitness/fitness.py", "eckity/fitness/simple_fitness.py", "eckity/fitness/gp_fitness.py", "eckity/individual.py"],
  [("better_than / equal_to / get_augmented_fitness", "SimpleFitness, GPFitness"), ("_is_evaluated flag", "Fitness")],
  ["comparison results against an arithmetic model"])

p("C21", "Genetic operators act with their probability and record what they did",
  "A genetic operator with probability p acts on a fraction p of its applications (never for 0, always for 1), independently of fitness and history. When it acts, all individuals it was given lose their previous fitness and the results have the operator's name appended to their history, in order of application, together with the parents' ids if requested; when it does not act, the individuals are returned unchanged with their fitness intact.",
  ["inputs", "histories", "configurations"],
  "all operators, probabilities, arities and sequences of applications, directly and inside runs",
  "tests use probability 1 almost everywhere and never measure how often operators act",
  ["eckity/genetic_operators/genetic_operator.py", "eckity/genetic_operators/failable_operator.py", "eckity/genetic_operators/mutations/vector_random_mutation.py", "eckity/breeders/simple_breeder.py"],
  [("probability draw, invalidation and bookkeeping", "GeneticOperator.apply_operator")],
  ["individuals around apply_operator", "applied_operators, parents"])

p("C22", "Non-dominated sorting ranks, measures and truncates correctly",
  "For every set of evaluated multi-objective individuals, dominance holds exactly if one is at least as good in every objective and strictly better in one, with each objective's own direction; the sorting gives each survivor the front number defined by repeated removal of non-dominated individuals, fills the result front by front up to the requested size (half by default), and cuts the last front by descending crowding distance, which is infinite for each objective's extremes and otherwise the sum over objectives of the normalised gap between neighbours. An individual with a lower front number, or the same front and a larger crowding distance, is better.",
  ["inputs", "configurations"],
  "all objective vectors (2 or more objectives, duplicates, ties, constant objectives), mixed directions, set sizes and requested sizes",
  "tests sort one small fixed population",
  ["eckity/multi_objective_evolution/nsga2_front_sorting.py", "eckity/multi_objective_evolution/nsga2_fitness.py"],
  [("domination counters", "NSGA2FrontSorting"), ("dominate / better_than", "NSGA2Fitness")],
  ["select_for_population results against a brute-force model"])

p("C23", "Multi-objective runs keep population size and never lose a front",
  "In a multi-objective run every generation has exactly the configured number of distinct individuals (ids unique, no shared genomes), chosen from the previous generation together with its offspring, each with the evaluator's objective values for its genome. With a deterministic evaluator progress is never lost: every previous individual survives, or is dominated by a survivor, or the survivors are all mutually non-dominated; each objective's best value never gets worse if there is room for the extremes of all objectives; and the reported best of generation is exactly the survivors' non-dominated set.",
  ["histories", "inputs", "configurations"],
  "all multi-objective problems, directions, population sizes, operators, executors and run lengths, with the default configuration as well",
  "no test runs the multi-objective algorithm for several generations and examines the population",
  ["eckity/multi_objective_evolution/nsga2_evolution.py", "eckity/multi_objective_evolution/nsga2_breeder.py", "eckity/multi_objective_evolution/nsga2_front_sorting.py", "eckity/multi_objective_evolution/nsga2_fitness.py"],
  [("parents are cloned and joined with offspring", "NSGA2Breeder"), ("front filling", "NSGA2FrontSorting"), ("_get_pareto_fronts", "NSGA2Evolution")],
  ["after_generation event"])

p("C24", "The scikit-learn estimators predict with the evolved program",
  "After fitting, a regressor's prediction is the best evolved program applied to each row of the given data, and a classifier's is that program's class: an integer in [0, number of classes) that is the sigmoid interval of the program's value (or the program's own argmax result); predictions depend only on the row, not on the batch, on earlier predictions or on the order of calls. Predicting before fitting raises not-fitted, fitting and predicting change neither the data given nor the fitted program, scores are those of the library's metrics on these predictions, and the training fitness of a program is the configured metric on the training data.",
  ["inputs", "histories", "configurations"],
  "all data sets, programs, class counts, metrics, batch splits and sequences of predict calls",
  "tests fit one model on one data set",
  ["eckity/sklearn_compatible/sklearn_wrapper.py", "eckity/sklearn_compatible/sk_classifier.py", "eckity/sklearn_compatible/sk_regressor.py", "eckity/sklearn_compatible/classification_evaluator.py", "eckity/sklearn_compatible/regression_evaluator.py"],
  [("fit / predict", "SklearnWrapper, SKClassifier"), ("classify_individual", "ClassificationEvaluator")],
  ["predict results against an independent interpreter", "copies of the data"])

p("C25", "Algorithm instances do not influence each other",
  "Constructing, configuring, observing or running one algorithm (with its own components, or with default components) does not change the outcome, events, components or state of another: constructions and runs in one process, in any order, also when a run is started from the init or generation-end callback of another, give each algorithm the same results as running it alone; operators, creators, selections, breeders, evaluators and generators that one algorithm used work in the next one like new ones. Registering to one instance's events never delivers another instance's events, and user-supplied lists, sets and dictionaries of the configuration are not modified.",
  ["histories", "configurations", "schedules"],
  "all pairs and sequences of algorithms, default and explicit components, and interleavings of their construction and runs",
  "every test builds one algorithm",
  ["eckity/algorithms/algorithm.py", "eckity/algorithms/simple_evolution.py", "eckity/multi_objective_evolution/nsga2_evolution.py", "eckity/before_after_publisher.py", "eckity/genetic_encodings/gp/tree/tree_individual.py", "eckity/individual.py"],
  [("per-instance default components", "constructors")],
  ["histories of interleaved runs against isolated runs", "component identity"])

p("C26", "Statistics report the population's true numbers and do not interfere",
  "The statistics written for a generation are exactly that generation's number and, per subpopulation, the best, worst and mean pure fitness (and mean size; for multi-objective runs the number and share of first-front individuals and the corners of the first and last front). They are written once per generation to the configured destination, and attaching statistics changes nothing about the run. A two-objective plot shows, per subpopulation, exactly the objective values of its individuals under the given axis names (nothing for other numbers of objectives), and saves it if asked to.",
  ["inputs", "histories", "configurations"],
  "all populations, directions, bloat weights, format strings, numbers of subpopulations and combinations of statistics",
  "tests never read what the statistics write",
  ["eckity/statistics/best_average_worst_statistics.py", "eckity/statistics/best_avg_worst_size_tree_statistics.py", "eckity/statistics/minimal_print_statistics.py", "eckity/multi_objective_evolution/moe_best_worst_statistics.py", "eckity/subpopulation.py", "eckity/population.py", "eckity/algorithms/simple_evolution.py"],
  [("write_statistics", "statistics classes"), ("registration to after_generation", "initialize of the algorithms")],
  ["text written by the statistics against values recomputed from the population"])

p("C27", "Invalid configurations and misuse are rejected with an error",
  "Constructing or using a component with arguments its documentation excludes raises an error instead of running with them: populations, statistics, creators, breeders or evaluators of the wrong type or empty, creation probabilities that do not match or do not sum to 1, an unknown executor or evaluation method, bounds or vectors that do not match the length, function and terminal sets with missing or mismatching types, population sizes that operator arities do not divide, half-and-half populations too small for the depth range, too large tournaments without replacement, payloads that do not match an operator's arity, fewer than one attempt, negative scores in fitness-proportionate selection, setting objective values that are already set, reading or comparing fitness values that are not evaluated, of different kinds or with different numbers of objectives. Valid neighbours of these arguments are accepted.",
  ["inputs", "configurations"],
  "all invalid and all neighbouring valid argument combinations of the listed kinds",
  "tests try one invalid value for some of these",
  ["eckity/algorithms/algorithm.py", "eckity/algorithms/simple_evolution.py", "eckity/subpopulation.py", "eckity/evaluators/simple_population_evaluator.py", "eckity/genetic_encodings/ga/vector_individual.py", "eckity/genetic_encodings/gp/tree/tree_individual.py", "eckity/genetic_encodings/gp/tree/tree_node.py", "eckity/breeders/simple_breeder.py", "eckity/creators/gp_creators/half.py", "eckity/genetic_operators/selections/tournament_selection.py", "eckity/event_based_operator.py", "eckity/genetic_operators/failable_operator.py"],
  [("argument validation", "constructors and operators")],
  ["raised errors and absence of effects"])

p("C28", "Algorithms and individuals survive copying and serialization",
  "An algorithm can be deep-copied or pickled and restored before, during (from an event callback) and after its run, leaving the original unaffected; the restored algorithm has the same configuration, population genomes and best individual, gives the same execution results, and, if it had not run yet, evolves to the same history as the original would. Individuals of every encoding round-trip with genome, bounds and types intact; their fitness is kept exactly if caching is requested for it and otherwise restored as not evaluated. A fitted scikit-learn estimator predicts the same after it is restored.",
  ["histories", "configurations", "crash_points"],
  "all algorithms with picklable components, all encodings, executors, and all points of a run",
  "tests pickle one algorithm and compare a few attributes",
  ["eckity/algorithms/algorithm.py", "eckity/evaluators/population_evaluator.py", "eckity/fitness/simple_fitness.py", "eckity/multi_objective_evolution/nsga2_fitness.py", "eckity/individual.py", "eckity/sklearn_compatible/sklearn_wrapper.py"],
  [("__getstate__ / __setstate__", "Algorithm, PopulationEvaluator, SimpleFitness, NSGA2Fitness")],
  ["restored object against the original"])

p("C29", "Population queries and creator choice follow their definitions",
  "For every evaluated population the best, worst and average queries of a subpopulation (and their per-subpopulation lists) are the true extremes under its direction and bloat weights and the arithmetic mean of the pure fitness, membership is by individual, and finding an individual's subpopulation returns the one containing it or raises. A subpopulation without given individuals is created once, by exactly one of its creators, chosen with the configured probabilities; given individuals are used as they are.",
  ["inputs", "configurations"],
  "all populations, numbers of subpopulations, directions, creators and creation probabilities",
  "tests use one creator and one subpopulation",
  ["eckity/subpopulation.py", "eckity/population.py"],
  [("sorted queries", "Subpopulation"), ("weighted choice of one creator", "Subpopulation.create_subpopulation_individuals")],
  ["query results against a direct computation", "calls to recording creators"])

p("C30", "Vector genome edits and accessors do exactly what they say",
  "Reading and replacing parts, cells and whole genomes of a vector acts on exactly the addressed cells, returns exactly the previous content, preserves all other cells and the length, and keeps the size and reported length consistent with the genome after any sequence of edits. Random parts are contiguous pieces of the genome and random replacements change one contiguous piece, with every admissible position possible.",
  ["inputs", "histories"],
  "all vectors, parts, positions and sequences of edits",
  "the vector accessors are covered by a few fixed examples, the random ones by none",
  ["eckity/genetic_encodings/ga/vector_individual.py"],
  [("slice replacement", "Vector.replace_vector_part, replace_vector_part_random, random_vector_part")],
  ["vector contents around every edit, against a list model"])

p("C31", "Programs built node by node accept exactly the nodes that fit",
  "Appending nodes in prefix order to an empty tree succeeds for every well-formed program of the configuration, typed programs with nested calls of other types included, and the result is that program, with its size, depth, root and value. A node that does not continue the expression - of another type than the argument it would fill or than the root, or following a complete expression - raises an error and leaves the tree unchanged. Emptying a tree allows building it again, building one tree never affects another, filtering returns exactly the matching nodes in order, and nodes are equal only if they have the same kind, type and function or value.",
  ["inputs", "histories"],
  "all typed and untyped configurations, programs, and interleavings of fitting and unfitting nodes over several trees",
  "tests append one root and its leaves, all of one type",
  ["eckity/genetic_encodings/gp/tree/tree_individual.py", "eckity/genetic_encodings/gp/tree/tree_node.py", "eckity/genetic_encodings/gp/tree/utils.py"],
  [("type of the argument that is next", "Tree.add_tree, Tree._should_add"), ("node equality", "TreeNode.__eq__")],
  ["accepted and refused nodes, tree contents after every call, against a stack of expected types"])

p("C32", "Estimators work unchanged in scikit-learn's model selection",
  "An estimator's parameters are its algorithm; setting a parameter sets that attribute of the algorithm and nothing else, and the next fit runs with it. A scikit-learn clone, of a fitted estimator too, is unfitted, has the same parameters and shares no component with the original; fitted on the same data, a clone and its unfitted original evolve to the same program, in any order, and neither changes the other's predictions. Cross-validated predictions and scores, grid-search scores, the chosen parameter and the refitted best estimator, alone and in a pipeline, are those of separately built and fitted estimators, and the estimator given to the search stays unfitted.",
  ["inputs", "configurations", "histories"],
  "all estimators with a fixed seed, data sets, sequences of parameter changes, clones and fits, splits and grids",
  "the tests do not fit, clone or search any estimator",
  ["eckity/sklearn_compatible/sklearn_wrapper.py", "eckity/sklearn_compatible/sk_classifier.py", "eckity/sklearn_compatible/sk_regressor.py", "eckity/algorithms/algorithm.py", "eckity/algorithms/simple_evolution.py"],
  [("parameters of the wrapped algorithm", "SklearnWrapper.get_params, set_params"), ("copy of an algorithm", "Algorithm.__getstate__, __setstate__")],
  ["predictions, scores and generations of estimators against separately fitted equal ones"])

p("C33", "Maximising, minimising and the unit of fitness make no difference",
  "With tournament selection a run depends on scores only through their order: maximising a score and minimising its negation with the same seed give the same genomes, selection and operator histories, best and worst individuals, early stops and final generation, in every encoding, with elitism, ties, infinite scores and bloat weights. The same holds for scores, bloat weights, targets and thresholds expressed in another unit (averages change by exactly that unit) and, without bloat weights, for any strictly increasing function of the scores. A multi-objective run does not depend on the unit of any of its objectives: survivors, ranks, crowding distances and reported fronts are the same.",
  ["inputs", "configurations"],
  "all configurations, landscapes and exact rewritings of their scores",
  "tests never compare two runs of equivalent problems",
  ["eckity/fitness/simple_fitness.py", "eckity/fitness/gp_fitness.py", "eckity/genetic_operators/selections/tournament_selection.py", "eckity/genetic_operators/selections/elitism_selection.py", "eckity/subpopulation.py", "eckity/evaluators/simple_population_evaluator.py", "eckity/termination_checkers/threshold_from_target_termination_checker.py", "eckity/multi_objective_evolution/nsga2_front_sorting.py", "eckity/algorithms/simple_evolution.py"],
  [("direction-dependent comparison", "SimpleFitness.better_than, GPFitness.get_augmented_fitness"), ("direction-dependent sorting", "Subpopulation, ElitismSelection"), ("normalised crowding", "NSGA2FrontSorting")],
  ["generation-by-generation comparison of two runs"])

p("C34", "Several subpopulations evolve side by side, each by its own rules",
  "With a user-defined population evaluator an algorithm evolves any number of subpopulations: in every generation each of them has its own size, encoding, bounds, function set and direction, its individuals are clones of individuals of its own previous generation and carry the generation number and ids that are unique over all subpopulations, its selection sees exactly its individuals, its operators are applied to its own clones only and recorded there, and its elites (number and direction) survive. The best of generation is what the evaluator reports, the best of run never gets worse, the worst of generation is one of the first subpopulation; equal seeds give equal runs. In multi-objective runs each subpopulation keeps its size and has its own reported non-dominated front.",
  ["inputs", "configurations", "histories"],
  "all numbers and combinations of subpopulations, independent and relative scores",
  "tests never run more than one subpopulation",
  ["eckity/breeders/simple_breeder.py", "eckity/population.py", "eckity/subpopulation.py", "eckity/algorithms/algorithm.py", "eckity/algorithms/simple_evolution.py", "eckity/multi_objective_evolution/nsga2_breeder.py", "eckity/multi_objective_evolution/nsga2_front_sorting.py", "eckity/multi_objective_evolution/nsga2_evolution.py"],
  [("breeding of every subpopulation", "SimpleBreeder.apply_breed, NSGA2Breeder.apply_breed"), ("generation numbers", "Algorithm.update_gen")],
  ["ancestry, selection and operator records of every subpopulation"])

p("C35", "User-defined components of every kind are driven by the documented protocol",
  "An algorithm built from user-defined components (individuals with any genome, fitness classes with any comparison, creators, operators of any arity that work in place or return new individuals, operators that fail and are retried, selections, evaluators, breeders, random generators, statistics and termination checkers) calls each of them exactly when and as often as documented, with the documented arguments: seed and initialise, create once, evaluate every individual of every population once, seed, breed (elites, selection, every operator on consecutive groups of its arity), evaluate, ask the checkers, report, and finally show the best of run. What components return is used: results of operators replace what they were given, the user's comparison decides the best and worst, attempts are numbered and end at the first success or with the failure handler, and executing the algorithm executes the best individual with the given arguments.",
  ["inputs", "configurations", "histories"],
  "all combinations of user-defined components",
  "tests define at most one custom component at a time and do not look at its calls",
  ["eckity/algorithms/algorithm.py", "eckity/algorithms/simple_evolution.py", "eckity/breeders/simple_breeder.py", "eckity/event_based_operator.py", "eckity/genetic_operators/genetic_operator.py", "eckity/genetic_operators/failable_operator.py", "eckity/creators/creator.py", "eckity/individual.py", "eckity/fitness/fitness.py", "eckity/evaluators/simple_population_evaluator.py", "eckity/statistics/statistics.py", "eckity/subpopulation.py"],
  [("template methods", "Algorithm.evolve, GeneticOperator.apply_operator, FailableOperator.apply"), ("groups of an operator's arity", "SimpleBreeder._apply_operators")],
  ["one call trace over all components, against the protocol"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
