"""C20: fitness comparison."""
import math
from fractions import Fraction

import numpy as np

from eckity.fitness import GPFitness, SimpleFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector
from eckity.genetic_operators import (BitStringVectorFlipMutation, BitStringVectorNFlipMutation, ERCMutation,
                                      FloatVectorGaussNPointMutation, FloatVectorGaussOnePointMutation,
                                      FloatVectorUniformNPointMutation, FloatVectorUniformOnePointMutation,
                                      IntVectorNPointMutation, IntVectorOnePointMutation, SubtreeCrossover,
                                      SubtreeMutation, VectorKPointsCrossover)
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness

from vk import wl
from vk.core import Scenario

PROPERTY = "C20"
LEVEL = "exploration"
RULE = ("A case draws individuals (vectors with simple or bloat-weighted fitness, trees of different sizes), scores (ties, "
        "signed zeros, neighbouring floats, huge, infinite, integers, numpy numbers), a direction, and walks a random program of "
        "score, invalidate, operator, resize and clone steps. After every step all pairs are compared with an arithmetic "
        "model: better, equal, adjusted and pure fitness; for individuals whose score is unset or was invalidated every read "
        "and comparison must raise. Distinct by program and values.")
ASSUMPTIONS = ["no NaN scores; compared individuals have the same direction",
               "bloat weights and scores are chosen so that the adjustment is exact in floating point, or the adjusted scores "
               "are separated by more than 1e-12 (relative)"]


def tree_of(rng, n, hib, fit):
    """A tree with exactly n nodes (a unary chain, or binary where possible)."""
    sets = {"typed": False, "funcs": [wl.h_neg, wl.uf.f_add], "terms": ["x"], "erc": (0.0, 1.0), "root": None,
            "vars": {"x": None}}

    def build(k):
        if k == 1:
            return [wl.TerminalNode("x" if rng.random() < 0.5 else 0.5)]
        if k == 2 or rng.random() < 0.4:
            return [wl.FunctionNode(wl.h_neg)] + build(k - 1)
        a = rng.randint(1, k - 2)
        return [wl.FunctionNode(wl.uf.f_add)] + build(a) + build(k - 1 - a)

    def balanced(k):
        if k < 3:
            return build(k)
        return [wl.FunctionNode(wl.uf.f_add)] + balanced((k - 1) // 2) + balanced(k - 1 - (k - 1) // 2)

    t = wl.make_tree(sets, build(n) if n <= 60 else balanced(n))
    t.fitness = fit
    return t


def vec_of(rng, enc, n, fit):
    cls = {"bit": BitStringVector, "int": IntVector, "float": FloatVector}[enc]
    b = {"bit": (0, 1), "int": (0, 9), "float": (0.0, 1.0)}[enc]
    return cls(fit, n, b, vector=[b[0]] * n)


POOLS = {"ties": [0.0, 1.0, 2.0], "zeros": [0.0, -0.0], "exact": [k * 0.25 for k in range(-20, 21)],
         "ints": list(range(-5, 6)), "np": [np.float64(0.5), np.float64(-2.0), np.int64(3), np.float64(0.5)],
         "inf": [math.inf, -math.inf, 0.0], "huge": [1e308, -1e308, 1e300, 2.0 ** 1000],
         "close": [1.0, math.nextafter(1.0, 2), math.nextafter(1.0, 0)], "tiny": [5e-324, 0.0, -5e-324],
         "big": [2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2, -2 ** 60, -2 ** 60 - 1, 10 ** 30, 10 ** 30 + 1],
         "frac": [Fraction(1, 3), Fraction(1, 3) + Fraction(1, 10 ** 30), Fraction(2, 3), 0]}


def size(i):
    return len(i.tree) if hasattr(i, "tree") else len(i.vector)


INEXACT = (0.1, 1e-6, 1e-7, 1e-9)


def must_raise(mon, f, what):
    try:
        r = f()
    except Exception:
        mon.event("rejected_reads")
        return
    mon.fail(what, result=r)


def compare_all(rng, mon, inds, score, bloat, hib):
    for i in inds:
        s = score.get(id(i))
        mon.eq(i.better_than(None), True, "an individual is not better than none")
        if s is None:
            mon.check(not i.fitness.is_fitness_evaluated(), "an unset or invalidated fitness counts as evaluated")
            must_raise(mon, i.get_pure_fitness, "reading a fitness that is not set gave a value")
            must_raise(mon, i.get_augmented_fitness, "reading an adjusted fitness that is not set gave a value")
        else:
            mon.check(i.fitness.is_fitness_evaluated(), "a set fitness counts as not evaluated")
            mon.check(i.get_pure_fitness() == s, "pure fitness is not the score", got=i.get_pure_fitness(), want=s)
            b = bloat.get(id(i), 0.0)
            a = s if b == 0 else s - b * size(i) if hib else s + b * size(i)
            mon.check(wl.close(i.get_augmented_fitness(), a), "adjusted fitness", got=i.get_augmented_fitness(), want=a,
                      score=s, bloat=b, size=size(i), hib=hib)
            mon.event("adjusted_reads")
    for i in inds:
        for j in inds:
            si, sj = score.get(id(i)), score.get(id(j))
            if si is None or sj is None:
                must_raise(mon, lambda: i.better_than(j), "comparing a fitness that is not set gave an answer")
                must_raise(mon, lambda: i.fitness.equal_to(i, j.fitness, j), "equality of a fitness that is not set")
                continue
            bi, bj = bloat.get(id(i), 0.0), bloat.get(id(j), 0.0)
            adj = lambda s, b, n: s if b == 0 else s - b * n if hib else s + b * n
            x, y = adj(si, bi, size(i)), adj(sj, bj, size(j))
            if x != y and (bi or bj) and abs(x - y) <= 1e-12 * max(1.0, abs(x), abs(y)):
                continue
            if (bi in INEXACT or bj in INEXACT) and x == y and (si, size(i)) != (sj, size(j)):
                continue
            want = x > y if hib else x < y
            mon.check(bool(i.better_than(j)) == want, "better_than disagrees with the adjusted scores", first=(si, bi, size(i)),
                      second=(sj, bj, size(j)), hib=hib, want=want)
            mon.check(bool(i.fitness.equal_to(i, j.fitness, j)) == (x == y), "equal_to disagrees with the adjusted scores",
                      first=(si, bi, size(i)), second=(sj, bj, size(j)), want=x == y)
            mon.check(i.get_pure_fitness() == si and j.get_pure_fitness() == sj, "a comparison changed the pure fitness")
            mon.event("comparisons")


def program(rng, mon):
    hib = rng.random() < 0.5
    pool = rng.choice(list(POOLS))
    gp = rng.random() < 0.5
    enc = rng.choice(["bit", "int", "float"])
    inds, score, bloat = [], {}, {}
    for _ in range(rng.choice([2, 3, 4])):
        w = rng.choice([0.0, 0.0, 0.25, 0.5, 1.0, 50.0, -0.5, -2.0, None]) if pool in ("ties", "zeros", "exact", "ints", "np") \
            else 0.0 if pool in ("big", "frac") else rng.choice([0.0, 0.0, 1.0, 4.0])
        if pool in ("ties", "zeros") and rng.random() < 0.3:
            w = rng.choice([1e-6, 1e-7, 1e-9])
        init = rng.choice(POOLS[pool]) if rng.random() < 0.5 else None
        cache = rng.random() < 0.3
        if gp or rng.random() < 0.3:
            kw = {} if w is None else {"bloat_weight": w}
            f = GPFitness(fitness=init, higher_is_better=hib, cache=cache, **kw)
            b = 0.1 if w is None else w
        else:
            f, b = SimpleFitness(fitness=init, higher_is_better=hib, cache=cache), 0.0
        ind = tree_of(rng, wl.rare(rng, [1, 2, 3, 5, 8], [130, 300, 513, 1100], 0.03), hib, f) if gp else \
            vec_of(rng, enc, wl.rare(rng, [1, 2, 4], [130, 600, 1100], 0.03), f)
        inds.append(ind)
        score[id(ind)] = init
        bloat[id(ind)] = b
    prog = []
    compare_all(rng, mon, inds, score, bloat, hib)
    for _ in range(rng.choice([2, 5])):
        k = rng.choice(["set", "set", "set", "unset", "op", "resize"])
        i = rng.choice(inds)
        if k == "set":
            v = rng.choice(POOLS[pool])
            i.fitness.set_fitness(v)
            score[id(i)] = v
        elif k == "unset":
            rng.choice([i.set_fitness_not_evaluated, i.fitness.set_not_evaluated])()
            score[id(i)] = None
        elif k == "resize":
            if gp:
                n = rng.choice([1, 4, 6])
                i.tree = tree_of(rng, n, hib, None).tree
            else:
                i.set_vector(list(i.vector) + [i.vector[0]])
        else:
            if gp:
                op = rng.choice([lambda: SubtreeMutation(probability=1, init_depth=(1, 1)), lambda: ERCMutation(probability=1)])()
                op.apply_operator([i])
            else:
                op = {"bit": BitStringVectorFlipMutation, "int": IntVectorNPointMutation,
                      "float": FloatVectorUniformOnePointMutation}[enc](probability=1)
                op.apply_operator([i])
            score[id(i)] = None
            mon.event("invalidated_by_operator")
        prog.append(k)
        compare_all(rng, mon, inds, score, bloat, hib)
    mon.sig(hib, pool, gp, enc, prog, [str(score[id(i)]) for i in inds], [size(i) for i in inds], list(bloat.values()))
    mon.show(hib=hib, scores=[score[id(i)] for i in inds], sizes=[size(i) for i in inds], weights=list(bloat.values()),
             program=prog)


def invalidation(rng, mon):
    """Every library operator that acts leaves no individual it was given with a readable stale score."""
    fam = rng.choice(["bit", "int", "float", "gp"])
    mofit = rng.random() < 0.2
    mk = (lambda: NSGA2Fitness(fitness=[1.0, 2.0], higher_is_better=True)) if mofit else \
        (lambda: GPFitness(fitness=3.0, higher_is_better=True, bloat_weight=0.5, cache=rng.random() < 0.5)) if fam == "gp" else \
        (lambda: SimpleFitness(fitness=3.0, higher_is_better=False, cache=rng.random() < 0.5))
    n = rng.choice([2, 3, 5])
    ops = {"bit": [lambda: BitStringVectorFlipMutation(), lambda: BitStringVectorNFlipMutation(n=1)],
           "int": [lambda: IntVectorOnePointMutation(probability=1), lambda: IntVectorNPointMutation(n=2)],
           "float": [lambda: FloatVectorGaussOnePointMutation(), lambda: FloatVectorGaussNPointMutation(n=2, sigma=1000.0),
                     lambda: FloatVectorUniformNPointMutation(n=2), lambda: FloatVectorUniformOnePointMutation()],
           "gp": [lambda: SubtreeMutation(), lambda: ERCMutation()]}[fam]
    xo = SubtreeCrossover if fam == "gp" else VectorKPointsCrossover
    op = xo(probability=1) if rng.random() < 0.4 else rng.choice(ops)()
    inds = [tree_of(rng, rng.choice([1, 3, 5]), True, mk()) if fam == "gp" else vec_of(rng, fam, n, mk())
            for _ in range(op.get_operator_arity())]
    for i in inds:
        i.get_pure_fitness()
    res = rng.choice([op.apply_operator, op.act])(list(inds))
    for i in list(inds) + list(res):
        must_raise(mon, i.get_pure_fitness, f"{type(op).__name__} left a stale fitness readable")
        mon.check(not i.fitness.is_fitness_evaluated(), f"{type(op).__name__} left a fitness marked as evaluated")
        if not mofit:
            must_raise(mon, lambda: i.better_than(inds[0]), "comparing an invalidated fitness gave an answer")
        else:
            must_raise(mon, lambda: i.fitness.dominate(i, inds[0].fitness, inds[0]), "dominance of an invalidated fitness")
    mon.event("operators_applied")
    mon.sig(type(op).__name__, n, mofit, type(inds[0].fitness).__name__)
    mon.show(operator=type(op).__name__, fitness=type(inds[0].fitness).__name__)


def construction(rng, mon):
    for cls in (SimpleFitness, GPFitness, NSGA2Fitness):
        for hib in (True, False):
            f = cls(higher_is_better=hib)
            must_raise(mon, f.get_pure_fitness, "a new fitness without a score has a value")
            mon.eq(f.is_fitness_evaluated(), False, "a new fitness counts as evaluated")
            v = [1.0, 2.0] if cls is NSGA2Fitness else 0.0
            f.set_fitness(v)
            mon.eq(f.get_pure_fitness(), v, "the score that was set")
            f.set_not_evaluated()
            must_raise(mon, f.get_pure_fitness, "an invalidated fitness has a value")
            f.set_fitness(v)
            mon.eq(f.get_pure_fitness(), v, "the score that was set again")
            g = cls(fitness=v, higher_is_better=hib)
            mon.eq(g.get_pure_fitness(), v, "the score given at construction")
    mon.sig("construction", rng.random())


def inheritance(rng, mon):
    """A score passes to a clone only if it is to be kept (cache) and does not depend on other individuals."""
    cls = rng.choice([SimpleFitness, GPFitness, NSGA2Fitness])
    cache, rel, hib = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5
    v = [float(rng.randint(-3, 3)) for _ in range(3)] if cls is NSGA2Fitness else rng.choice([0.0, 0, 1.5, -2.0, 7])
    f = cls(higher_is_better=hib, cache=cache, is_relative_fitness=rel) if rng.random() < 0.6 else \
        cls(fitness=v, higher_is_better=hib, cache=cache, is_relative_fitness=rel)
    ind = tree_of(rng, 3, hib, f) if cls is GPFitness else vec_of(rng, rng.choice(["bit", "int", "float"]), 3, f)
    if not f._is_evaluated:
        must_raise(mon, ind.get_pure_fitness, "a new fitness without a score has a value")
        f.set_fitness(v)
    chain = [ind]
    for _ in range(rng.choice([1, 1, 2, 3])):
        chain.append(chain[-1].clone())
    for k, c in enumerate(chain[1:]):
        if cache and not rel:
            mon.eq(c.get_pure_fitness(), v, "a kept score did not pass to the clone")
            mon.event("kept_scores")
        else:
            must_raise(mon, c.get_pure_fitness, "a score that is not to be kept is readable in a clone")
            mon.event("dropped_scores")
    mon.eq(ind.get_pure_fitness(), v, "cloning changed the score of the original")
    chain[-1].set_fitness_not_evaluated()
    must_raise(mon, chain[-1].get_pure_fitness, "an invalidated fitness has a value")
    mon.eq(ind.get_pure_fitness(), v, "invalidating a clone changed the score of the original")
    mon.sig(cls.__name__, cache, rel, hib, str(v), len(chain), str(ind.vector if hasattr(ind, "vector") else [str(x) for x in ind.tree]))
    mon.show(fitness=cls.__name__, cache=cache, relative=rel)


SCENARIOS = [
    Scenario(inheritance, 400, 4000, needs=("kept_scores", "dropped_scores")),
    Scenario(program, 4000, 80000, needs=("comparisons", "rejected_reads", "adjusted_reads", "invalidated_by_operator")),
    Scenario(invalidation, 1200, 16000, needs=("operators_applied", "rejected_reads")),
    Scenario(construction, 8, 8),
]
