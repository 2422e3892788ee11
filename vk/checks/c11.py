"""C11: vector genomes stay in their domain."""
import math

from eckity.creators import GABitStringVectorCreator, GAFloatVectorCreator, GAIntVectorCreator
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector
from eckity.genetic_operators import (BitStringVectorFlipMutation, BitStringVectorNFlipMutation,
                                      FloatVectorGaussNPointMutation, FloatVectorGaussOnePointMutation,
                                      FloatVectorUniformNPointMutation, FloatVectorUniformOnePointMutation,
                                      IntVectorNPointMutation, IntVectorOnePointMutation, VectorKPointsCrossover)
from eckity.genetic_operators.mutations.vector_n_point_mutation import VectorNPointMutation

from vk import wl
from vk.core import Scenario

PROPERTY = "C11"
LEVEL = "exploration"
RULE = ("A case is a creator call, a random sequence of library vector operators (all of them, all parameter forms, arity 1-3) "
        "on a small population, or a whole run, over lengths 1-40 and bounds (common pair or per cell, degenerate, negative, "
        "wide, tiny). The domain monitor checks length, type and bounds of every cell after every step, and compares the "
        "individual's own bounds check with a direct computation on vectors in, at and just outside the bounds. Non-trivial: "
        "individuals with at least one operator application, or a bounds-check comparison; distinct by parameters.")
ASSUMPTIONS = ["bounds of float vectors are finite; cells are not NaN"]
CLS = {"bit": BitStringVector, "int": IntVector, "float": FloatVector}


def cell_bounds(bounds, i):
    return bounds[i] if isinstance(bounds, list) else bounds


def in_domain(mon, ind, enc, length, bounds, what):
    v = ind.vector
    mon.check(isinstance(v, list), f"{what}: the genome is not a list", genome=v)
    mon.eq(len(v), length, f"{what}: length", vector=v)
    mon.eq((ind.size(), ind.length), (length, length), f"{what}: reported size and length")
    for i, x in enumerate(v):
        lo, hi = cell_bounds(bounds, i)
        if enc == "float":
            mon.check(isinstance(x, float), f"{what}: cell {i} is not a float", value=x, type=type(x))
        else:
            mon.check(isinstance(x, int) and not isinstance(x, bool), f"{what}: cell {i} is not an integer", value=x,
                      type=type(x))
        mon.check(lo <= x <= hi, f"{what}: cell {i} is out of its bounds", value=x, bounds=(lo, hi))
        if enc == "bit":
            mon.check(x in (0, 1), f"{what}: cell {i} is not a bit", value=x)
    mon.check(ind.check_if_in_bounds() is True, f"{what}: the bounds check rejects a vector in its bounds", vector=v,
              bounds=bounds)
    mon.event("vectors_checked")
    mon.event("cells_checked", len(v))


def draw_bounds(rng, enc, n):
    if enc == "bit":
        return [(0, 1) for _ in range(n)] if rng.random() < 0.3 else (0, 1)
    if enc == "int":
        def mk():
            lo = rng.choice([0, -1, 1, -10, 5, -2 ** 31, 10 ** 6, rng.randint(-50, 50)])
            return lo, lo + rng.choice([0, 0, 1, 2, 9, 100, 2 ** 31])
    else:
        def mk():
            lo = rng.choice([0.0, -1.0, 1.0, -1e6, 1e-6, -2.5, rng.uniform(-10, 10)])
            if rng.random() < 0.2:       # whole numbers, also as Python integers
                return int(lo), int(lo) + rng.choice([0, 0, 1, 7])
            return lo, lo + rng.choice([0.0, 1e-9, 0.5, 1.0, 100.0, 1e9])
    return [mk() for _ in range(n)] if rng.random() < 0.6 else mk()


def make_creator(rng, enc, n, b, up=False):
    if rng.random() < 0.3:
        return GAVectorCreator(length=n, bounds=b, vector_type=CLS[enc], update_parents=up)
    return {"bit": GABitStringVectorCreator, "int": GAIntVectorCreator, "float": GAFloatVectorCreator}[enc](
        length=n, bounds=b, update_parents=up)


def creators(rng, mon):
    enc = rng.choice(["bit", "int", "float"])
    n = wl.rare(rng, [1, 2, 2, 3, 4, 7, 20, 40], [65, 130, 300, 1025])
    b = draw_bounds(rng, enc, n)
    k = rng.choice([0, 1, 2, 7, 30])
    hib = rng.random() < 0.5
    cr = make_creator(rng, enc, n, b)
    inds = cr.create_individuals(k, hib)
    mon.eq(len(inds), k, "number of individuals created")
    for ind in inds:
        mon.check(type(ind) is CLS[enc], "class of the created individual", got=type(ind))
        in_domain(mon, ind, enc, n, b, "created individual")
        mon.check(ind.fitness.higher_is_better is hib and not ind.fitness.is_fitness_evaluated(),
                  "fitness of a created individual")
    mon.check(len({id(i.vector) for i in inds}) == k, "created individuals share a genome")
    # default bounds of the encodings
    for c, e in ((GABitStringVectorCreator, "bit"), (GAIntVectorCreator, "int"), (GAFloatVectorCreator, "float"),
                 (GAVectorCreator, "bit"), (lambda length: GAVectorCreator(length=length, vector_type=FloatVector), "float")):
        for ind in c(length=n).create_individuals(2, hib):
            in_domain(mon, ind, e, n, ind.bounds, "individual with default bounds")
    d = IntVector(SimpleFitness(), 1)
    x = d.get_random_number_in_bounds(0)
    mon.check(isinstance(x, int) and -2 ** 31 <= x < 2 ** 31, "random number within default integer bounds", value=x)
    if k:
        mon.sig(enc, n, str(b), k)
        mon.show(encoding=enc, length=n, bounds=b, individuals=k)


def genes(rng, mon):
    """A user-supplied gene creator."""
    enc = rng.choice(["bit", "int", "float"])
    n = wl.rare(rng, [1, 2, 3, 7, 20], [65, 300])
    k = rng.choice([1, 2, 7, 30])
    b = {"bit": (0, 1), "int": (-5, 100), "float": (-1.0, 1.0)}[enc]
    if rng.random() < 0.5:
        b = [b] * n
    calls = []

    def gene(ind, index):
        v = {"bit": rng.randint(0, 1), "int": rng.randint(-5, 100), "float": rng.uniform(-1, 1)}[enc]
        calls.append((ind, index, v))
        return v

    if rng.random() < 0.3:
        cr = GAVectorCreator(length=n, gene_creator=gene, bounds=b, vector_type=CLS[enc])
    else:
        cr = {"bit": GABitStringVectorCreator, "int": GAIntVectorCreator, "float": GAFloatVectorCreator}[enc](
            length=n, gene_creator=gene, bounds=b)
    hib = rng.random() < 0.5
    for _ in range(rng.choice([1, 1, 2])):
        calls.clear()
        inds = cr.create_individuals(k, hib)
        mon.eq(len(inds), k, "number of individuals created")
        mon.eq(len(calls), k * n, "calls of the gene creator")
        by = {}
        for ind, i, v in calls:
            mon.check((id(ind), i) not in by, "the gene creator was asked twice for a cell", index=i)
            by[id(ind), i] = v
        for ind in inds:
            in_domain(mon, ind, enc, n, b, "user-supplied genes")
            mon.eq(list(ind.vector), [by.get((id(ind), i)) for i in range(n)], "genome and the values of the gene creator")
            mon.eq(ind.fitness.higher_is_better, hib, "direction")
        mon.event("user_genomes", k)
    mon.sig(enc, n, k, hib)


def reach(rng, mon):
    """Every value of small integer domains is reached in every cell by creators and by mutation."""
    enc = rng.choice(["bit", "int", "int"])
    n = rng.choice([1, 2, 3, 5])
    if enc == "bit":
        b = (0, 1)
    else:
        mk = lambda: (lambda lo: (lo, lo + rng.randint(0, 4)))(rng.choice([0, -2, 7, -100, 2 ** 31 - 3, -2 ** 31, 2 ** 31, 10 ** 12, 2 ** 53]))
        b = [mk() for _ in range(n)] if rng.random() < 0.6 else mk()
    inds = make_creator(rng, enc, n, b).create_individuals(300, True)
    for i in range(n):
        lo, hi = cell_bounds(b, i)
        mon.eq(sorted({ind.vector[i] for ind in inds}), list(range(lo, hi + 1)), f"values reached in cell {i}", bounds=b)
        mon.event("cells_with_full_reach")
    if enc == "int":
        op = IntVectorNPointMutation(probability=1.0, n=1)
        ind = inds[0]
        seen = [set() for _ in range(n)]
        for _ in range(300 * n):
            op.apply_operator([ind])
            for i in range(n):
                seen[i].add(ind.vector[i])
        for i in range(n):
            lo, hi = cell_bounds(b, i)
            mon.eq(sorted(seen[i]), list(range(lo, hi + 1)), f"values reached by mutation in cell {i}", bounds=b)
    mon.sig(enc, n, str(b))


def all_ops(rng, enc, n):
    pr = rng.choice([0.3, 1.0, 1.0])
    k = rng.randint(1, n)
    ar = rng.choice([1, 1, 2, 3])
    pe = rng.choice([0.0, 0.3, 1.0])
    sg = rng.choice([0.0, 1e-6, 0.5, 10.0, 1e9])
    mu = rng.choice([0.0, 0.0, 5.0, -1e6])
    ops = [lambda: VectorNPointMutation(n=k, probability=pr, arity=ar)]
    if n >= 2:
        kk = rng.randint(1, n - 1)
        ops += [lambda: VectorKPointsCrossover(probability=pr, k=kk)] * 2
    if enc == "bit":
        ops += [lambda: BitStringVectorFlipMutation(probability=pr, arity=ar),
                lambda: BitStringVectorNFlipMutation(probability=pr, arity=ar, n=k, probability_for_each=pe)]
    elif enc == "int":
        ops += [lambda: IntVectorOnePointMutation(probability=pr, arity=ar, probability_for_each=pe),
                lambda: IntVectorNPointMutation(probability=pr, arity=ar, n=k)]
    else:
        at = rng.choice([1, 2, 5])
        ops += [lambda: FloatVectorUniformOnePointMutation(probability=pr, arity=ar),
                lambda: FloatVectorUniformNPointMutation(n=k, probability=pr, arity=ar),
                lambda: FloatVectorGaussOnePointMutation(probability=pr, arity=ar, mu=mu, sigma=sg, attempts=at),
                lambda: FloatVectorGaussNPointMutation(n=k, probability=pr, arity=ar, mu=mu, sigma=sg, attempts=at)]
    return rng.choice(ops)()


def sequences(rng, mon):
    enc = rng.choice(["bit", "int", "float", "float"])
    n = wl.rare(rng, [1, 2, 2, 3, 5, 8, 16], [33, 65, 130, 300])
    b = draw_bounds(rng, enc, n)
    pop = make_creator(rng, enc, n, b, rng.random() < 0.2).create_individuals(6, rng.random() < 0.5)
    names = []
    for _ in range(rng.choice([3, 8, 20])):
        op = all_ops(rng, enc, n)
        grp = rng.sample(range(len(pop)), op.arity)
        call = op.act if rng.random() < 0.3 else op.apply_operator
        res = call([pop[i] for i in grp])
        mon.eq(len(res), op.arity, "number of individuals returned by an operator")
        for i, r in zip(grp, res):
            pop[i] = r
        for ind in pop:
            in_domain(mon, ind, enc, n, b, f"after {type(op).__name__}")
        if rng.random() < 0.2:
            j = rng.randrange(len(pop))
            pop[j] = pop[j].clone()
            in_domain(mon, pop[j], enc, n, b, "clone")
        names.append(type(op).__name__)
        mon.event("op:" + type(op).__name__)
    mon.sig(enc, n, str(b), tuple(names))
    mon.show(encoding=enc, length=n, bounds=b, operators=names)


def bounds_check(rng, mon):
    """check_if_in_bounds against a direct computation."""
    enc = rng.choice(["int", "float", "float"])
    n = wl.rare(rng, [1, 2, 2, 3, 6], [33, 130, 300])
    b = draw_bounds(rng, enc, n)
    cls = CLS[enc]
    for _ in range(10):
        v = []
        bad = rng.random() < 0.6
        which = rng.randrange(n)
        for i in range(n):
            lo, hi = cell_bounds(b, i)
            if bad and (i == which or rng.random() < 0.1):
                if enc == "int":
                    x = rng.choice([lo - 1, hi + 1, lo - 1000, hi + 10 ** 7])
                else:
                    x = rng.choice([math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf), lo - 1, hi + 1e6,
                                    math.inf, -math.inf])
            else:
                x = rng.choice([lo, hi, rng.randint(lo, hi) if enc == "int" else min(hi, max(lo, rng.uniform(lo, hi)))])
            v.append(x)
        want = all(cell_bounds(b, i)[0] <= x <= cell_bounds(b, i)[1] for i, x in enumerate(v))
        ind = cls(SimpleFitness(), n, b, vector=list(v))
        got = ind.check_if_in_bounds()
        mon.check(bool(got) == want, "the bounds check disagrees with the bounds", vector=v, bounds=b, got=got, want=want)
        mon.eq(ind.vector, v, "the bounds check changed the vector")
        mon.eq(ind.get_bounds(), b, "reported bounds")
        mon.event("bounds_checks_compared")
        mon.event("in_bounds" if want else "out_of_bounds")
        mon.sig(enc, str(b), str(v))


def runs(rng, mon):
    c = wl.draw_cfg(rng, encs=("bit", "int", "float"))
    algo, sp, _ = wl.build(c)
    import random
    b = wl.vector_bounds(random.Random(c["opseed"]), c["enc"], c["length"])

    def look(s, d):
        for ind in sp.individuals:
            in_domain(mon, ind, c["enc"], c["length"], b, f"generation {algo.generation_num}")
        in_domain(mon, algo.best_of_run_, c["enc"], c["length"], b, "best of run")

    algo.register("init", look)
    algo.register("after_generation", look)
    algo.evolve()
    mon.event("runs")
    mon.sig(wl.cfg_sig(c))


SCENARIOS = [
    Scenario(creators, 1500, 20000, needs=("vectors_checked",)),
    Scenario(genes, 400, 6000, needs=("user_genomes",)),
    Scenario(reach, 160, 1600, needs=("cells_with_full_reach",)),
    Scenario(sequences, 2400, 40000, needs=tuple("op:" + c.__name__ for c in (
        VectorNPointMutation, VectorKPointsCrossover, BitStringVectorFlipMutation, BitStringVectorNFlipMutation,
        IntVectorOnePointMutation, IntVectorNPointMutation, FloatVectorUniformOnePointMutation,
        FloatVectorUniformNPointMutation, FloatVectorGaussOnePointMutation, FloatVectorGaussNPointMutation))),
    Scenario(bounds_check, 1500, 20000, needs=("in_bounds", "out_of_bounds")),
    Scenario(runs, 500, 8000, needs=("runs",)),
]
