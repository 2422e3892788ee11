"""Multi-objective workloads."""
import random as _random
from functools import partial as _partial

from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.evaluators import SimpleIndividualEvaluator, SimplePopulationEvaluator
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector
from eckity.genetic_operators import TournamentSelection
from eckity.multi_objective_evolution import NSGA2Breeder, NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.population import Population
from eckity.subpopulation import Subpopulation

from vk import wl

VT = {"bit": BitStringVector, "int": IntVector, "float": FloatVector}


def objectives(kind, m, g):
    if kind == "cont":
        return [(wl.h64(j, g) % 10 ** 9) / 1e6 - 500 for j in range(m)]
    if kind == "ties":
        return [float(wl.h64(j, g) % 3) for j in range(m)]
    if kind == "mixed":
        return [float(wl.h64(j, g) % (4 if j % 2 else 10 ** 6)) for j in range(m)]
    if kind == "line":       # all mutually non-dominated for equal directions
        t = float(wl.h64("l", g) % 1000)
        return [t if j % 2 == 0 else -t for j in range(m)]
    if kind == "chain":      # totally ordered
        t = float(wl.h64("c", g) % 1000)
        return [t] * m
    if kind == "const":
        return [1.0] * m
    if kind == "schaffer":
        s = wl._f_sum(g)
        return [(s - 2 * j) ** 2 for j in range(m)]
    raise ValueError(kind)


KINDS = ["cont", "cont", "ties", "mixed", "line", "chain", "const", "schaffer"]


class MOEval(SimpleIndividualEvaluator):
    def __init__(self, kind, m):
        super().__init__()
        self.kind = kind
        self.m = m
        self.log = []

    def evaluate_individual(self, individual):
        g = wl.genome(individual)
        r = objectives(self.kind, self.m, g)
        self.log.append((individual, g, r))   # list.append is atomic
        return r

    def __getstate__(self):
        d = self.__dict__.copy()
        d["log"] = []
        return d

    def drain(self):
        out, self.log = self.log, []
        return out


def draw_mo(rng, max_gen=None, pops=None, executors=("thread",), big=0.0):
    c = {"enc": rng.choice(["bit", "int", "float"]), "m": rng.choice([2, 2, 2, 3, 4, 1]),
         "kind": rng.choice(KINDS), "pop": rng.choice(pops or [2, 4, 4, 6, 8, 8, 10, 12, 20, 30]),
         "gens": rng.choice([0, 1, 2, 3, 4, 6]) if max_gen is None else max_gen,
         "seed": rng.choice([0, 2 ** 32 - 1, rng.randrange(2 ** 32)]),
         "exec": rng.choice(executors), "workers": rng.choice([1, 2, 4]),
         "method": rng.choice(["map", "submit"]), "length": rng.choice([1, 2, 3, 6, 10]),
         "opseed": rng.getrandbits(40), "elit": rng.choice([0.0, 0.0, 0.1, 0.5]), "default": rng.random() < 0.3}
    if big and rng.random() < big:
        if rng.random() < 0.5:
            c["pop"], c["gens"] = rng.choice([64, 110, 140, 260]), rng.choice([1, 2])
            c["length"] = rng.choice([10, 20])
            c["kind"] = rng.choice(["cont", "cont", "line", "mixed", "ties", "const"])
        else:
            c["gens"] = rng.choice([30, 60, 110])
            c["pop"] = min(c["pop"], 12)
    c["warm"] = rng.choice(["new", "aged", "aged", "mated"]) if rng.random() < 0.1 else None
    c["keep"] = rng.random() < 0.15          # scores are kept by clones (cache)
    hib = rng.choice([True, False, "mixed"])
    c["hib"] = [rng.random() < 0.5 for _ in range(c["m"])] if hib == "mixed" else hib
    return c


def directions(c):
    return list(c["hib"]) if isinstance(c["hib"], list) else [c["hib"]] * c["m"]


def build_mo(c, evaluator=None, statistics=None, termination_checker=None, **kw):
    r2 = _random.Random(c["opseed"])
    bounds = wl.vector_bounds(r2, c["enc"], c["length"])
    ops = [f() for _, f in wl.vector_ops(r2, c["enc"], c["length"])]
    creator = GAVectorCreator(length=c["length"], bounds=bounds, fitness_type=_partial(NSGA2Fitness, cache=True) if c.get("keep") else NSGA2Fitness,
                              vector_type=VT[c["enc"]])
    ev = evaluator or MOEval(c["kind"], c["m"])
    hib = list(c["hib"]) if isinstance(c["hib"], list) else c["hib"]
    given = wl.warm_start(c["warm"], c["opseed"], creator, c["pop"], hib, None) if c.get("warm") else None
    sp = Subpopulation(creators=creator, population_size=c["pop"], evaluator=ev,
                       higher_is_better=list(c["hib"]) if isinstance(c["hib"], list) else c["hib"],
                       elitism_rate=c["elit"], operators_sequence=ops, individuals=given,
                       selection_methods=[(TournamentSelection(tournament_size=3, higher_is_better=True), 1)])
    args = dict(max_generation=c["gens"], random_seed=c["seed"], executor=c["exec"], max_workers=c["workers"])
    if statistics is not None:
        args["statistics"] = statistics
    if not c["default"]:
        args["breeder"] = NSGA2Breeder()
        args["population_evaluator"] = SimplePopulationEvaluator(executor_method=c["method"])
        args["termination_checker"] = termination_checker
    elif termination_checker is not None:
        args["termination_checker"] = termination_checker
    args.update(kw)
    return NSGA2Evolution(Population([sp]) if r2.random() < 0.5 else sp, **args), sp


# ---------------------------------------------------------------- brute-force model
def dominates(a, b, dirs):
    ge = all((x >= y) if h else (x <= y) for x, y, h in zip(a, b, dirs))
    gt = any((x > y) if h else (x < y) for x, y, h in zip(a, b, dirs))
    return ge and gt


def fronts(objs, dirs):
    """List of fronts (lists of indices) by repeated removal of the non-dominated ones."""
    left = list(range(len(objs)))
    out = []
    while left:
        f = [i for i in left if not any(dominates(objs[j], objs[i], dirs) for j in left if j != i)]
        out.append(f)
        s = set(f)
        left = [i for i in left if i not in s]
    return out
