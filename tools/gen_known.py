#!/usr/bin/env python3
"""Writes known_findings.txt: maps the fix: commits of /repo to the properties they repair."""
import subprocess, os
M = {
 "default bounds of GAVectorCreator": ("C11", "GAVectorCreator() with its default bounds and vector type raised TypeError on every creation"),
 "uniform fallback of a Gaussian mutation": ("C13", "a Gaussian mutation with probability p < 1 whose attempts all fail left the individual unchanged with probability 1-p although it acted"),
 "report final_generation_ when": ("C07", "final_generation_ stayed None (or 0) when a run ended by reaching max_generation"),
 "keep elite individuals as they are": ("C05", "genetic operators were applied to the elite copies, e.g. elitism_rate=0.1, mutation probability 1: the best genome was lost"),
 "assign fitness scores when evaluating": ("C01", "executor_method='submit' stored the Individual object itself as its fitness (TypeError on comparison)"),
 "swap the alternate parts": ("C12", "k-point crossover with k>=2 and a first cut point > k swapped wrong parts, e.g. length 10, cuts [4,7]"),
 "bounds check of vectors of length 2": ("C11", "check_if_in_bounds crashed for vectors of length 2 with a list of bounds"),
 "default mutated value getter": ("C13", "VectorNPointMutation without mut_val_getter raised TypeError on every application"),
 "vector mutation returns its individuals": ("C13", "a vector mutation that failed all attempts returned None and crashed"),
 "random terminals always have the requested type": ("C14", "typed trees got float constants in int/bool slots, and int constant 1 typed as bool when True was a terminal"),
 "execute and show trees with numeric constants": ("C18", "execute(x=..) raised 'Missing variable' and show() crashed for terminal sets with numeric constants"),
 "constant programs keep their value": ("C18", "a constant program executed on an integer array was truncated to an integer"),
 "execute trees with a terminal named pos": ("C18", "a variable named 'pos' made execute raise TypeError"),
 "tree operators reach every node": ("C16", "only the first of several equal nodes could be picked for crossover or mutation"),
 "ERC mutation keeps the type": ("C17", "constant mutation put floats in int-typed and bool-typed nodes"),
 "trees do not share their default fitness": ("C25", "all trees built without a fitness shared one fitness object"),
 "typed numeric and/or functions": ("C19", "and2floats/or2floats/and2ints/or2ints returned booleans, neg_float(and2floats(..)) raised TypeError"),
 "argmax2floats of a constant": ("C19", "argmax2floats(scalar, array) raised ValueError"),
 "HalfCreator passes its bloat_weight": ("C15", "trees made by HalfCreator(bloat_weight=w) had bloat weight 0"),
 "clones do not inherit selected_by": ("C04", "selection and operator histories accumulated over generations although documented as those of the last generation"),
 "accept creation probabilities": ("C27", "creation probabilities that sum to 1 only up to rounding were rejected, e.g. the default ones of 49 creators"),
 "default bounds of IntVector": ("C11", "IntVector without bounds had its minimum and maximum exchanged, random values raised ValueError"),
 "registering to an event without a callback": ("C08", "register(event) without callback stored a set, publishing raised TypeError"),
 "allow registering and unregistering": ("C08", "a callback that unregistered itself (or registered another) raised RuntimeError"),
 "operators and creators accept a list": ("C08", "a documented list of event names made act() raise TypeError, creators got it as their arity"),
 "argmax type can be pickled": ("C28", "trees with the library type t_argmax could not be pickled, e.g. an argmax classifier with executor='process' raised PicklingError"),
 "fitted estimator stays fitted": ("C28", "a fitted SKRegressor/SKClassifier that was pickled or deep-copied raised NotFittedError on predict"),
 "serialization of algorithms after": ("C28", "pickle/deepcopy of an algorithm raised TypeError once its run had started"),
 "reproducible order of the individuals in NSGA2": ("C06", "the order of NSGA2 populations depended on object addresses, same-seed runs differed"),
 "NSGA2 fitness with a lower front rank": ("C22", "better_than preferred the worse front"),
 "default breeder and termination checker of NSGA2": ("C23", "the default NSGA2Evolution halved its population every generation and crashed in its default termination checker"),
 "NSGA2Evolution shuts down": ("C02", "NSGA2Evolution left its worker threads/processes running after evolve"),
 "MOEBestWorstStatistics with more": ("C26", "statistics raised AssertionError for fronts with more than two corners (3 objectives)"),
 "SimpleEvolution instances do not share": ("C25", "all SimpleEvolution instances without a breeder shared one breeder (and its subscribers)"),
 "bit string vectors accept bounds": ("C11", "BitStringVector with bounds given per cell (as documented) raised TypeError"),
 "negative constant accept unsigned": ("C18", "a program that evaluates to a negative integer raised OverflowError on a 2-d array of unsigned integers"),
 "a failed attempt of a vector mutation reverts": ("C13", "with arity >= 2 a failed attempt left the individuals before the rejected one mutated"),
 "building a typed tree node by node": ("C31", "add_tree refused valid nested typed programs (e.g. float leaves of a comparison inside a conditional) and accepted a root of any type"),
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = ["# known findings; 'fixed:' lines are repaired in /repo and suppress nothing.",
       "# 'known: property=<id> key=<mechanism> <what fails>' lines would be unrepaired findings; there are none.", ""]
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    k = [k for k in M if k in s]
    assert len(k) == 1, (s, k)
    out.append(f"fixed: property={M[k[0]][0]} {h} {M[k[0]][1]}")
open(os.path.join(here, "known_findings.txt"), "w").write("\n".join(out) + "\n")
print(len(out) - 3)
