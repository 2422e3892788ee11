"""C34: several subpopulations in one run (coevolution with a user-defined population evaluator)."""
import random

from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.creators import GAVectorCreator
from eckity.evaluators import SimplePopulationEvaluator
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector
from eckity.genetic_encodings.gp import Tree
from eckity.genetic_operators import TournamentSelection
from eckity.multi_objective_evolution import NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.population import Population
from eckity.subpopulation import Subpopulation

from vk import mo, wl
from vk.checks.c21 import fallback_names
from vk.core import Scenario

PROPERTY = "C34"
LEVEL = "exploration"
RULE = ("A case draws 2-5 subpopulations with their own encodings, sizes, directions, elitism, operators and selections and runs "
        "them in one algorithm with a user-defined population evaluator (independent or relative scores). Selections and "
        "operators are recorded per subpopulation; a monitor follows the ancestry of every individual and compares sizes, "
        "domains, elites, histories, scores, reports and statistics of every subpopulation with its own configuration, and the "
        "whole run with a second one. Non-trivial: a generation of at least two subpopulations compared; distinct by "
        "configuration.")
ASSUMPTIONS = ["the population evaluator is a subclass of the library's simple one that overrides its evaluation hook and returns "
               "the best individual of a subpopulation of its choice"]


class CoEval(SimplePopulationEvaluator):
    """Scores every subpopulation; relative: an individual's score depends on the champions of the others."""

    def __init__(self, confs, chief, relative, obj=None):
        super().__init__()
        self.confs, self.chief, self.relative, self.obj = confs, chief, relative, obj
        self.log = []

    def _evaluate(self, population):
        self.applied_individuals = population
        subs = population.sub_populations
        base = [[self.base(i, ind) for ind in sp.individuals] for i, sp in enumerate(subs)]
        if self.relative:
            best = [max(b) for b in base]
            base = [[x + 1000 * sum(best[:i] + best[i + 1:]) for x in b] for i, b in enumerate(base)]
        for b, sp in zip(base, subs):
            for x, ind in zip(b, sp.individuals):
                ind.fitness.set_fitness(x)
        self.log.append(base)
        r = subs[self.chief].get_best_individual() if self.obj is None else subs[self.chief].individuals[0]
        self.last = r
        return r

    def base(self, i, ind):
        if self.obj is not None:
            return mo.objectives(self.confs[i]["kind"], self.confs[i]["m"], wl.genome(ind))
        return wl.LANDSCAPES[self.confs[i]["land"]](wl.genome(ind))


def draw_confs(rng):
    out = []
    for i in range(rng.choice([2, 2, 3, 5])):
        c = wl.draw_cfg(rng, lands=["hash", "ties", "int", "nonneg", "sum"], max_gen=0, big=0.0,
                        pops=[2, 4, 6, 8, 12])
        if c["sel"][0] == "fp":
            c["land"] = "nonneg"
        out.append(c)
    return out


def build_sub(c, i, log):
    creator, ops, sets = wl.build_parts(c)
    sel = wl.selection(c)
    for o in ops:
        wl.record_op(o, log)
    orig = sel.select

    def select(src, dest):
        log.append(("select", list(src), list(dest)))
        return orig(src, dest)
    sel.select = select
    sp = Subpopulation(creators=creator, population_size=c["pop"], evaluator=wl.PureEval("const"), higher_is_better=c["hib"],
                       elitism_rate=c["elit"], operators_sequence=ops, selection_methods=[(sel, 1)])
    return sp, sets


def one(rng, mon, confs, seed, gens, chief, relative, check):
    logs = [[] for _ in confs]
    built = [build_sub(c, i, logs[i]) for i, c in enumerate(confs)]
    subs = [b[0] for b in built]
    pe = CoEval(confs, chief, relative)
    algo = SimpleEvolution(Population(subs) if rng.random() < 0.5 else subs, population_evaluator=pe, max_generation=gens,
                           random_seed=seed, max_workers=1)
    prev = {}
    hist = []
    seen = set()
    st = {"best": None}

    def look(s, d):
        g = d["generation_num"]
        hist.append([[(wl.genome(i), wl.fit_key(i)) for i in sp.individuals] for sp in subs] + [wl.genome(s.best_of_run_)])
        if check:
            inspect(mon, s, g, subs, confs, built, pe, logs, prev, seen, st, relative, chief)
        for lg in logs:
            lg.clear()
    algo.register("init", look)
    algo.register("after_generation", look)
    algo.evolve()
    mon.eq(len(hist), gens + 1, "generations")
    mon.check(algo.population.sub_populations is subs or list(algo.population.sub_populations) == subs, "subpopulations replaced")
    return hist


def inspect(mon, s, g, subs, confs, built, pe, logs, prev, seen, st, relative, chief):
    for i, (sp, c) in enumerate(zip(subs, confs)):
        what = f"generation {g}, subpopulation {i}"
        inds = sp.individuals
        mon.eq(len(inds), c["pop"], f"{what}: size")
        for k, ind in enumerate(inds):
            # domain
            if c["enc"] in wl.CREATORS:
                mon.check(type(ind) is {"bit": BitStringVector, "int": IntVector, "float": FloatVector}[c["enc"]],
                          f"{what}: encoding of another subpopulation", got=type(ind).__name__)
                mon.eq(ind.size(), c["length"], f"{what}: length")
                b = c["bounds"]
                for j, x in enumerate(ind.vector):
                    lo, hi = b[j] if isinstance(b, list) else b
                    mon.check(lo <= x <= hi, f"{what}: gene out of the subpopulation's bounds", value=x, bounds=(lo, hi))
            else:
                mon.check(isinstance(ind, Tree), f"{what}: encoding of another subpopulation", got=type(ind).__name__)
                wl.check_tree(mon, ind, built[i][1], what, mutated_consts=True)
            mon.check(ind.fitness.higher_is_better == c["hib"], f"{what}: direction of another subpopulation")
            mon.check(ind.get_pure_fitness() == pe.log[-1][i][k], f"{what}: fitness is not what the population evaluator set")
            mon.eq(ind.gen, g, f"{what}: generation number of an individual")
            if g == 0:
                mon.check(ind.id not in seen, f"{what}: id not unique over the subpopulations")
            else:
                mon.check(ind.id not in seen, f"{what}: id used before")
                mon.check(ind.cloned_from in prev[i][0], f"{what}: not bred from the previous generation of its "
                          "own subpopulation")
            seen.add(ind.id)
            mon.event("individuals_followed")
        adj = [wl.aug(x, x.get_pure_fitness(), c) for x in inds]
        if g:
            # breeding: selection saw exactly this subpopulation, operators only its own clones
            ne = round(c["elit"] * c["pop"])
            sels = [e for e in logs[i] if e[0] == "select"]
            mon.eq(len(sels), 1, f"{what}: selections")
            mon.check(len(sels[0][1]) == len(prev[i][1]) and all(a is b for a, b in zip(sels[0][1], prev[i][1])),
                      f"{what}: selected from other individuals than those of the subpopulation")
            mon.eq(len(sels[0][2]), ne, f"{what}: elites handed to the selection")
            now = {id(x) for x in inds}
            for name, ins, outs in logs[i]:
                if name != "select":
                    mon.check(all(id(x) in now for x in outs), f"{what}: an operator was applied to individuals of elsewhere", op=name)
                    mon.event("operator_applications")
            # elites of its own direction
            keep = sorted(prev[i][2], reverse=c["hib"])[:ne]
            got = sorted(adj, reverse=c["hib"])[:ne]
            if ne and not relative:
                mon.check(all(not wl.better(a, b, c["hib"]) for a, b in zip(keep, got)), f"{what}: an elite was lost",
                          elites=keep, best=got)
                mon.event("elite_sets_checked")
            names = {type(o).__name__ for o in sp.get_operators_sequence()}
            names |= {fallback_names(n) for n in names}
            for ind in inds:
                mon.check(set(ind.applied_operators) <= names, f"{what}: operators of another subpopulation", got=ind.applied_operators)
        prev[i] = ({x.id for x in inds}, list(inds), adj)
    # reports
    if g:
        mon.check(s.best_of_gen is pe.last, "best of generation is not what the population evaluator reported", generation=g)
        if s.best_of_run_ is not pe.last:
            mon.check(s.best_of_run_ is st["best"], "best of run changed to another individual", generation=g)
        a, b = wl.aug(s.best_of_run_, st["val"](s.best_of_run_), confs[chief]), wl.aug(pe.last, pe.last.get_pure_fitness(), confs[chief])
        mon.check(not wl.better(b, a, confs[chief]["hib"]), "best of run is worse than the best of generation", generation=g)
        w = s.worst_of_gen
        mon.check(any(w is x for x in subs[0].individuals), "worst of generation is not an individual of the first subpopulation")
        mon.event("generations_of_several")
    else:
        mon.check(s.best_of_run_ is pe.last, "best of run after the initial evaluation")
    st["best"] = s.best_of_run_
    st["val"] = lambda x: x.get_pure_fitness()


def coevolution(rng, mon):
    confs = draw_confs(rng)
    relative = rng.random() < 0.3
    if relative:
        for c in confs:
            if c["sel"][0] == "fp":
                c["sel"] = ("t", 2)
    seed, gens, chief = rng.randrange(2 ** 32), rng.choice([1, 2, 4, 7]), rng.randrange(len(confs))
    a = one(rng, mon, confs, seed, gens, chief, relative, True)
    if rng.random() < 0.4:
        b = one(rng, mon, confs, seed, gens, chief, relative, False)
        mon.check(a == b, "two equal runs with several subpopulations differ", confs=confs)
        mon.event("histories_compared")
    mon.sig([wl.cfg_sig(c) for c in confs], seed)
    mon.show(subpopulations=[(c["enc"], c["pop"], c["hib"], c["elit"]) for c in confs], generations=gens, relative=relative)


# ---------------------------------------------------------------- multi-objective
def mo_sub(c):
    r2 = random.Random(c["opseed"])
    bounds = wl.vector_bounds(r2, c["enc"], c["length"])
    ops = [f() for _, f in wl.vector_ops(r2, c["enc"], c["length"])]
    return Subpopulation(creators=GAVectorCreator(length=c["length"], bounds=bounds, fitness_type=NSGA2Fitness, vector_type=mo.VT[c["enc"]]),
                         population_size=c["pop"], evaluator=wl.PureEval("const"), higher_is_better=c["hib"], operators_sequence=ops,
                         selection_methods=[(TournamentSelection(3, True), 1)])


def mo_coevolution(rng, mon):
    confs = [mo.draw_mo(rng, max_gen=0, pops=[2, 4, 6, 10]) for _ in range(rng.choice([2, 3]))]
    subs = [mo_sub(c) for c in confs]
    pe = CoEval(confs, 0, False, obj=True)
    algo = NSGA2Evolution(Population(subs), population_evaluator=pe, max_generation=rng.choice([1, 3]), random_seed=rng.randrange(2 ** 32),
                          max_workers=1)
    prev = {}

    def look(s, d):
        g = d.get("generation_num", 0)
        for i, (sp, c) in enumerate(zip(subs, confs)):
            what = f"generation {g}, subpopulation {i}"
            mon.eq(len(sp.individuals), c["pop"], f"{what}: size")
            dirs = mo.directions(c)
            objs = []
            for ind in sp.individuals:
                mon.check(type(ind) is mo.VT[c["enc"]] and ind.size() == c["length"], f"{what}: encoding of another subpopulation")
                mon.check(ind.get_pure_fitness() == mo.objectives(c["kind"], c["m"], wl.genome(ind)), f"{what}: objectives of another genome")
                objs.append(tuple(ind.get_pure_fitness()))
            if g:
                mon.check(all(ind.id in prev[i] or ind.cloned_from in prev[i] for ind in sp.individuals),
                          f"{what}: not bred from its own subpopulation")
                first = mo.fronts(objs, dirs)[0]
                rep = s.best_of_gen[i]
                mon.check(sorted(id(x) for x in rep) == sorted(id(sp.individuals[k]) for k in first),
                          f"{what}: reported front is not the non-dominated set of the subpopulation")
                mon.event("fronts_compared")
            prev[i] = {x.id for x in sp.individuals} | {x.cloned_from for x in sp.individuals}
        if g:
            mon.eq(len(s.best_of_gen), len(subs), "number of reported fronts")
    algo.register("init", look)
    algo.register("after_generation", look)
    algo.evolve()
    mon.sig([sorted((k, str(v)) for k, v in c.items()) for c in confs])
    mon.show(subpopulations=[(c["enc"], c["pop"], c["m"], c["kind"]) for c in confs])


SCENARIOS = [
    Scenario(coevolution, 2400, 12000, needs=("individuals_followed", "generations_of_several", "operator_applications", "elite_sets_checked",
                                             "histories_compared")),
    Scenario(mo_coevolution, 600, 3000, needs=("fronts_compared",)),
]
