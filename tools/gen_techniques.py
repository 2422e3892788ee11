#!/usr/bin/env python3
"""Per property: the deciding monitor (technique), its oracle and why it reaches what the tests cannot."""
import json, os
T = {}
def t(i, technique, oracle, why):
    T[i] = dict(technique=technique, oracle=oracle, why=why)

t("C01", "online monitor over runs: evaluator call log vs. recorded fitness, with forced completion orders",
  "re-evaluation of every genome at every generation event; exactly-once matching of the evaluator's call log (by object and genome bytes) against the population; for process workers the log is an append-only scratch file",
  "a completion-order controller makes thread evaluations finish in a drawn permutation, so pairing by completion, lost and doubled evaluations show; tests use one order and never look at the scores")
t("C02", "fault injection at every call index of every user component, with a liveness and leak monitor",
  "the injected exception (or one chained from it) must leave evolve; a killed worker must make it raise; a thread/process census after evolve must equal the one before",
  "enumerates the fault index over all evaluations of small runs and samples it elsewhere; a watchdog turns hangs into violations")
t("C03", "online monitor on generation events, recomputing the extremes of every generation",
  "best/worst of generation compared with the extremes of scores recomputed from genomes; the best of run compared with the best ever evaluated and with the snapshot taken when it was reported",
  "landscapes with ties, signed zeros, one-ulp differences and infinities, bloat weights where pure and adjusted orders differ, operators that overwrite genomes in place")
t("C04", "heap-identity and lineage monitor on generation events",
  "sizes, uniqueness of ids over the whole run, identity of every mutable part against this and the previous generation, cloned_from / selected_by / applied_operators against a log of operator calls",
  "aliasing is only visible by object identity across generations; sizes up to 140 000 individuals and advanced id counters reach counter limits")
t("C05", "trace monitor: operator log joined with generation snapshots",
  "individuals that no operator touched must contain, as a multiset, everything better than the elite cut of the previous generation and enough of the tie class at it",
  "operators write values never seen before, so an elite that is overwritten, truncated or replaced by a worse one cannot be masked")
t("C06", "differential run monitor: two executions of one seed under different nuisances",
  "bitwise equality of complete histories; seed discipline observed through a logging RNG and through the values the global generators give in every generation",
  "varies executor, workers, delays, ambient random state, heap layout, preceding runs and PYTHONHASHSEED (other interpreters)")
t("C07", "trace monitor of checker calls and generation events against a stop-rule model",
  "number of generations, calls and arguments of every checker, the reported final generation; library checkers against direct models on synthetic histories",
  "stopping at every generation including 0 and the last, lists of checkers, stagnation histories with resets, thresholds at exact equality")
t("C08", "trace-specification checker over recorded event logs",
  "a subscription model predicts every delivery (who, when, with which data) of random register/unregister/publish programs; runs are matched with the event grammar init, generations, finish and the before/after pairs",
  "re-entrant registration and unregistration from callbacks, id reuse, user-defined event names, generation-0 termination")
t("C09", "snapshot monitor over random clone/edit programs",
  "complete snapshots of every individual not addressed by a step must not change; the clone contract is compared at every clone",
  "shared structure shows only after particular later edits of the family; programs are drawn over all encodings and bounds forms")
t("C10", "online monitor around selection calls plus statistical monitors of the picks",
  "source snapshots, destination identity, clone contract of every pick; win counts per rank against the binomial law of the documented tournament, monotone frequencies for fitness-proportionate selection",
  "tests see one draw; the laws need thousands of draws and the aliasing checks need identities")
t("C11", "domain monitor after every creation and operator application",
  "length, number type and bounds of every cell, recomputed; the library's own bounds check compared with a direct computation at, inside and just outside the bounds",
  "all operators, all parameter forms, degenerate and huge bounds, per-cell bounds, long vectors, sequences of operators")
t("C12", "online checker of origins of cells, plus frequency monitors of the cut points",
  "every cell of both children must be the parents' values there and the origin must switch exactly k times; cut sets uniform",
  "all-distinct parents make every cell's origin visible; lengths 2 to 1025, every k, reuse of the operator object")
t("C13", "online monitor of mutations with scripted success/failure, plus frequency monitors",
  "cell-by-cell comparison with the previous genome; a model of the attempt script predicts every intermediate vector, the number of attempts and the roll-back",
  "any pattern of rejections over attempts and individuals is scripted; cell choice and Gaussian shifts are judged by counts and moments")
t("C14", "online structural sanitizer: independent parser and type checker after every operation",
  "prefix-form parse with arities and declared types, depth, membership in function/terminal sets, constants' ranges",
  "random type systems (including user-defined and subclass types) and operator histories, rather than one fixed tree")
t("C15", "online monitor of created populations, plus frequency monitors",
  "depth of every leaf measured by an independent parser, exact half-and-half counts where they are determined, directions and weights observed by comparing fitness, constants against ranges and types",
  "depth ranges 0-5, repeated use of a creator, uneven sizes, typed and untyped sets")
t("C16", "offline checker that searches for a cyclic exchange explaining the observed result",
  "existence of one complete, same-typed subtree per tree whose cyclic exchange gives the results, node identity unshared; coverage monitor for the reach of every candidate",
  "explains any result, so it judges every random choice; tests compare sizes of one pair")
t("C17", "offline checker that searches for the replaced subtree explaining the result; bystander monitor",
  "existence of one complete subtree replaced by a well-typed one of allowed depth (or one numeric leaf changed); bystanders' snapshots unchanged; coverage and moments",
  "one operator object used over several configurations and individuals, clones and relatives watched")
t("C18", "differential monitor of executions against an independent interpreter",
  "right-to-left stack interpreter, the exec'ed printed program, and row-by-row execution must agree with the result; tree and inputs unchanged",
  "generated programs and inputs of all shapes, dtypes and layouts, more than 10 columns, no rows, misuse")
t("C19", "differential monitor of library functions against a pure-Python reference",
  "position-wise reference with the documented protection, shapes, number types, unchanged arguments, no numpy warnings turned errors",
  "edge pools with the protection threshold and its neighbours, subnormals, mixed constants and arrays, all shapes")
t("C20", "online monitor of all pairwise comparisons against an arithmetic model",
  "better/equal/adjusted/pure of every pair after every step; any read of an unset or invalidated score must raise",
  "programs of score, invalidate, operate, resize and clone steps; ties, neighbours, signed zeros, infinities, caching")
t("C21", "snapshot monitor around operator applications plus binomial monitors",
  "either nothing changed, or fitness gone, the operator's name appended once and the given ids recorded; number of acts against the binomial law",
  "all operators, user operators of every kind, failing ones, sequences")
t("C22", "differential monitor of sorting against a brute-force model",
  "dominance for all pairs, front of every survivor, front-by-front filling, exact crowding distances where they are determined (bounds otherwise), cut of the last front",
  "value pools with ties, duplicates, chains, constants, 1e±150 magnitudes, up to 300 individuals")
t("C23", "online monitor on generation events of multi-objective runs",
  "size, identity, sharing, objective values, survivors chosen front by front from parents and offspring (from the evaluation log), progress conditions, reported fronts",
  "conservation across generations is not visible to any test")
t("C24", "differential monitor of predictions against an independent interpreter",
  "row-wise program values and class rule, metric on the training data, unchanged data and program, not-fitted errors",
  "sequences of predictions over batches, layouts, reused buffers, saturated sigmoids")
t("C25", "history monitor: interleaved runs compared with isolated ones",
  "equality of histories and deliveries with the isolated run; identity of components between instances; user's containers against copies",
  "drawn schedules of construction, nesting, copying and garbage, also of estimators")
t("C26", "offline checker over the text written by statistics",
  "numbers parsed from the text compared with values recomputed at that moment; once per generation; history equal to the run without statistics",
  "tests never read the text")
t("C27", "monitor of raised errors around the boundary of documented restrictions",
  "the invalid combination must raise and leave its inputs unchanged, the valid neighbour must be accepted",
  "draws both sides of every boundary; tests try single values")
t("C28", "differential monitor of restored objects, with copies taken inside running generations",
  "public state, execution results and (if it had not run) the whole history of the restored object; the original's history against an undisturbed run",
  "copies at drawn points of the run from event callbacks, all protocols, caching on and off")
t("C29", "differential monitor of queries and creations against direct computations",
  "true extremes and means from the individuals, identity-based membership, recording creators, frequency of creators",
  "repeated and shuffled queries, copies of members, several subpopulations, skewed probabilities")
t("C30", "model-based monitor: edit programs mirrored on plain lists",
  "results, genomes, sizes and lengths after every call; results and arguments are modified afterwards to expose sharing; positions of random edits covered",
  "sequences of edits over two vectors that exchange parts")
t("C31", "model-based monitor: node-by-node construction mirrored on a stack of expected types",
  "every offered node must be taken exactly if the model expects its type; contents, size, root after every call; depth and value of finished programs",
  "nested typed programs, wrong offers between any two nodes, several trees built alternately and rebuilt")
t("C32", "differential monitor of model selection against separately fitted estimators",
  "predictions, scores, generations and parameters of estimators, clones, folds and grid points; independence of clones; not-fitted errors",
  "sequences of parameter changes, clones and fits, folds, grids, pipelines")
t("C33", "metamorphic monitor: two runs of equivalently rewritten problems compared online",
  "genomes, histories, reports and ends of a run against those of the same problem with reversed direction, other units or a monotone map of its scores",
  "an asymmetry between the directions needs no known right answer to show")
t("C34", "online monitor of coevolution runs with ancestry tracking",
  "sizes, domains, ancestry, selection and operator records, elites and reports of every subpopulation against its own configuration; equality of repeated runs",
  "two to five subpopulations of different kinds at once")
t("C35", "trace monitor: calls of user-defined components against the protocol",
  "order, number and arguments of all calls; populations and histories against what the components returned",
  "every component kind user-defined at once, with own genomes and own fitness comparisons")
for v in T.values():
    v["note"] = "held on the executions counted in the evidence file (quick and thorough differ in their number); sampled, not exhaustive"
json.dump(T, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "techniques.json"), "w"), indent=1)
