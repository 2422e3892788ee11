"""C28: copying and serialization."""
import copy
import inspect
import pickle
import random as _random

import numpy as np

from eckity.algorithms import SimpleEvolution
from eckity.base import typed_functions as tf
from eckity.base.types import t_argmax
from eckity.creators import FullCreator, GrowCreator
from eckity.fitness import GPFitness, SimpleFitness
from eckity.genetic_encodings.ga import Vector
from eckity.genetic_operators import ERCMutation, GeneticOperator, SubtreeCrossover, SubtreeMutation, VectorKPointsCrossover
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.sklearn_compatible import ClassificationEvaluator, RegressionEvaluator, SKClassifier, SKRegressor
from eckity.statistics import BestAverageWorstSizeTreeStatistics, BestAverageWorstStatistics, MinimalPrintStatistics
from eckity.subpopulation import Subpopulation
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker

from vk import mo, wl
from vk.checks.c26 import captured
from vk.core import Scenario

PROPERTY = "C28"
LEVEL = "exploration"
RULE = ("A case copies an object by pickle (any protocol) or deepcopy: an individual of any encoding with cached or uncached, "
        "evaluated or unevaluated fitness; an algorithm before its run, from its init or generation callbacks at a chosen "
        "generation, and after it (thread and process executors, typed and untyped programs, vectors, several statistics and "
        "checkers); or a scikit-learn estimator. The restored object is compared with the original by public state, its "
        "execution results and, if it had not run, by the history it evolves to; the original by the history of an undisturbed "
        "run. Non-trivial: a restored object was compared; distinct by configuration, copy point and method.")
ASSUMPTIONS = ["algorithms with user components that Python cannot pickle (several vector mutations hold lambdas) are deep-copied only",
               "parts of the state that only matter inside a running generation are not compared in mid-run copies"]


class Reset(GeneticOperator):
    """Picklable vector mutation: redraws one cell."""

    def __init__(self, probability=1.0, arity=1, events=None):
        super().__init__(probability=probability, arity=arity, events=events)

    def apply(self, individuals):
        import random
        for ind in individuals:
            i = random.randrange(ind.size())
            ind.set_cell_value(i, ind.get_random_number_in_bounds(i))
        return individuals


class Tap:
    """Event callback with private state that is not part of a copy."""

    def __init__(self, fn=None):
        self.fn = fn

    def __call__(self, sender, data):
        if self.fn is not None:
            self.fn(sender)

    def __getstate__(self):
        return {"fn": None}

    def __setstate__(self, d):
        self.fn = None


def copier(rng, picklable=True):
    k = rng.choice(["deepcopy", "pickle", "pickle"]) if picklable else "deepcopy"
    if k == "deepcopy":
        return k, copy.deepcopy
    p = rng.choice([2, 4, pickle.HIGHEST_PROTOCOL])
    return f"pickle{p}", lambda x: pickle.loads(pickle.dumps(x, p))


# ------------------------------------------------------------------ individuals
def parts(ind):
    d = {"class": type(ind), "genome": wl.genome(ind), "size": ind.size(), "gen": ind.gen, "selected_by": list(ind.selected_by),
         "applied": list(ind.applied_operators), "update_parents": ind.update_parents}
    if ind.update_parents:
        d["parents"] = list(ind.parents)
    if isinstance(ind, Vector):
        d["bounds"] = ind.bounds
        d["btypes"] = repr(ind.bounds)
        d["length"] = ind.length
    else:
        d["funcs"] = list(ind.function_set)
        d["terms"] = list(ind.terminal_set.items())
        d["erc"] = repr(ind.erc_range)
        d["root"] = ind.root_type
        d["types"] = [n.node_type for n in ind.tree]
        d["fns"] = [getattr(n, "function", None) for n in ind.tree]
    return d


def individuals(rng, mon):
    kind = rng.choice(["bit", "int", "float", "gp", "gpt", "argmax", "mo"])
    cache = rng.random() < 0.5
    hib = rng.random() < 0.5
    score = wl.LANDSCAPES[rng.choice(["hash", "zeros", "close", "int", "np", "tiny", "huge"])]((rng.random(),))
    if kind in ("gp", "gpt", "argmax"):
        if kind == "argmax":
            sets = {"typed": True, "funcs": [tf.argmax2floats, tf.add2floats], "terms": {"x": float}, "erc": None, "root": t_argmax, "vars": {"x": float}}
        else:
            sets = wl.typed_sets(rng) if kind == "gpt" else wl.untyped_sets(rng)
        ind = wl.make_tree(sets, wl.random_nodes(rng, sets, sets["root"], rng.choice([1, 2, 4])), update_parents=rng.random() < 0.3)
        ind.fitness = GPFitness(higher_is_better=hib, cache=cache, bloat_weight=rng.choice([0.0, 0.5]))
    else:
        enc = rng.choice(["bit", "int", "float"]) if kind == "mo" else kind
        L = rng.choice([1, 2, 5])
        ind = wl.CREATORS[enc](length=L, bounds=wl.vector_bounds(rng, enc, L), update_parents=rng.random() < 0.3).create_individuals(1, hib)[0]
        if kind == "mo":
            ind.fitness = NSGA2Fitness(higher_is_better=hib, cache=cache)
            score = [rng.random(), 2.0]
        else:
            ind.fitness = SimpleFitness(higher_is_better=hib, cache=cache)
    ind.gen = rng.choice([0, 3])
    ind.selected_by.append("TournamentSelection")
    if ind.update_parents:
        ind.parents.extend([3, 4])
    evaluated = rng.random() < 0.8
    if evaluated:
        ind.fitness.set_fitness(score)
    before = parts(ind)
    how, cp = copier(rng)
    new = cp(ind)
    mon.check(new is not ind, "the copy is the original")
    sh = [v for k, v in wl.state_ids(new).items() if k in wl.state_ids(ind)]
    mon.check(not sh, "the copy shares state with the original", shared=sh)
    got = parts(new)
    for k, v in before.items():
        mon.check(got[k] == v, f"{k} of the restored individual differs", got=got[k], want=v, how=how)
    mon.eq(parts(ind), before, "copying changed the original")
    mon.eq(ind.fitness.is_fitness_evaluated(), evaluated, "copying changed the original's evaluation state")
    if evaluated:
        mon.check(ind.get_pure_fitness() == score and type(ind.get_pure_fitness()) is type(score), "copying changed the original's fitness")
    mon.check(type(new.fitness) is type(ind.fitness) and new.fitness.higher_is_better == ind.fitness.higher_is_better and new.fitness.cache == cache,
              "fitness settings of the restored individual differ")
    if hasattr(ind.fitness, "bloat_weight"):
        mon.eq(new.fitness.bloat_weight, ind.fitness.bloat_weight, "bloat weight of the restored individual")
    if evaluated and cache:
        mon.check(new.fitness.is_fitness_evaluated(), "cached fitness was lost")
        mon.check(new.get_pure_fitness() == score and type(new.get_pure_fitness()) is type(score), "cached fitness is not kept exactly",
                  got=new.get_pure_fitness(), want=score)
        mon.event("cached_fitness")
    else:
        mon.check(not new.fitness.is_fitness_evaluated(), "uncached fitness was restored as evaluated")
        try:
            f = new.get_pure_fitness()
        except Exception:
            mon.event("not_evaluated")
        else:
            mon.fail("an individual restored as not evaluated has a fitness", got=f)
    # behaviour
    if isinstance(ind, Vector):
        mon.check(new.execute() == ind.execute(), "execution result differs")
        new.set_cell_value(0, 12345)
    else:
        env = {k: (0.5 if t is None else wl.draw_value(rng, t)) for k, t in sets["vars"].items()}
        with np.errstate(all="ignore"):
            mon.check(wl.same_value(new.execute(**env), ind.execute(**env)), "execution result differs")
        new.tree.pop()
    new.selected_by.append("x")
    mon.eq(parts(ind), before, "changing the copy changed the original")
    mon.event("restored")
    mon.sig(kind, how, cache, before["genome"])
    mon.show(kind=kind, how=how, cache=cache, evaluated=evaluated, genome=before["genome"][:4])


# ------------------------------------------------------------------ algorithms
def plain(x, depth=0):
    """Comparable form of configuration values."""
    if isinstance(x, (int, float, str, bool, type(None), bytes)):
        return x
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(plain(y, depth + 1) for y in x))
    if isinstance(x, dict):
        return ("dict", tuple((repr(k), plain(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, type) or inspect.isfunction(x) or inspect.isbuiltin(x):
        return ("name", getattr(x, "__module__", ""), getattr(x, "__qualname__", str(x)))
    return None


VOLATILE = {"executor", "individuals", "applied_individuals", "selected_individuals", "created_individuals", "best_of_run", "log", "_lock",
            "population", "events", "seen", "evaluator", "fitness"}


def component(o):
    """Configuration of a component: its class and its plainly valued attributes."""
    d = {}
    for k, v in vars(o).items():
        if k in VOLATILE or k.startswith("_"):
            continue
        p = plain(v)
        if p is not None or v is None:
            d[k] = p
    ev = getattr(o, "events", None)
    if isinstance(ev, dict):
        d["events"] = tuple(sorted((str(k), len(v)) for k, v in ev.items()))
    return (type(o).__qualname__, tuple(sorted(d.items(), key=lambda t: t[0])))


def config(algo):
    sp = algo.population.sub_populations
    out = {"class": type(algo), "max_generation": algo.max_generation, "seed": algo.random_seed, "workers": algo.max_workers,
           "executor": type(algo.executor).__name__, "pool": getattr(algo.executor, "_max_workers", None), "subpopulations": len(sp),
           "events": sorted((k, len(v)) for k, v in algo.events.items())}
    out["breeder"] = component(algo.breeder)
    out["evaluator"] = component(algo.population_evaluator)
    out["statistics"] = [component(s) for s in algo.statistics]
    tc = algo.termination_checker
    out["termination"] = None if tc is None else [component(t) for t in (tc if isinstance(tc, list) else [tc])]
    for i, s in enumerate(sp):
        out[f"sub{i}"] = (s.population_size, s.n_elite, s.higher_is_better, [component(c) for c in s.creators],
                          [component(o) for o in s.get_operators_sequence()],
                          [(component(a), b) for a, b in s.get_selection_methods()], component(s.evaluator))
    return out


def genomes(algo):
    return [None if s.individuals is None else [wl.genome(i) for i in s.individuals] for s in algo.population.sub_populations]


def best(algo):
    return None if algo.best_of_run_ is None else wl.genome(algo.best_of_run_)


def compare(mon, new, ref, what, before_run):
    mon.eq(sorted(ref), sorted(config(new)), f"{what}: configuration keys")
    got = config(new)
    for k, v in ref.items():
        mon.check(got[k] == v, f"{what}: '{k}' of the restored algorithm differs", got=got[k], want=v)
    mon.event("configurations_compared")


def draw(rng, executors):
    if rng.random() < 0.2:
        c = mo.draw_mo(rng, pops=[2, 4, 8], max_gen=rng.choice([1, 2, 3]), executors=executors)
        return "mo", c, False
    c = wl.draw_cfg(rng, pops=[2, 4, 6, 8], max_gen=rng.choice([0, 1, 2, 3, 4]), executors=executors)
    return "so", c, c["enc"] in ("gp", "gpt") or rng.random() < 0.5


def build(kind, c, pick, opts):
    kw = {}
    if opts["stats"]:
        kw["statistics"] = [{"baw": BestAverageWorstStatistics, "fmt": lambda: BestAverageWorstStatistics(format_string="B {} W {} A {}"),
                             "min": MinimalPrintStatistics, "size": BestAverageWorstSizeTreeStatistics}[k]()
                            for k in opts["stats"] if k != "size" or c["enc"] in ("gp", "gpt")] if kind == "so" else []
    if opts["term"] and kind == "so":
        kw["termination_checker"] = [ThresholdFromTargetTerminationChecker(optimal=10 ** 9, threshold=0.0)]
    if opts.get("gseed") is not None:
        kw["generation_seed"] = opts["gseed"]
    if kind == "mo":
        return mo.build_mo(c, **kw)
    if pick and c["enc"] in wl.CREATORS:
        # operators without lambdas
        ops = [Reset(probability=0.5)] + ([VectorKPointsCrossover(probability=0.9)] if c["length"] > 1 else [])
        cr = wl.build_parts(c)[0]
        sp = Subpopulation(creators=cr, population_size=c["pop"], evaluator=wl.PureEval(c["land"]), higher_is_better=c["hib"],
                           elitism_rate=c["elit"], operators_sequence=ops, selection_methods=[(wl.selection(c), 1)])
        a = SimpleEvolution(sp, max_generation=c["gens"], executor=c["exec"], max_workers=c["workers"], random_seed=c["seed"], **kw)
        return a, sp
    return wl.build(c, **kw)[:2]


def track(algo, fn):
    algo.register("init", Tap(lambda s: fn("init", s)))
    algo.register("after_generation", Tap(lambda s: fn("gen", s)))


def hist(algo, extra=None):
    out = []

    def fn(ev, s):
        out.append((ev, s.generation_num, [wl.snap_pop(p) for p in s.population.sub_populations], best(s)))
        if extra:
            extra(ev, s)

    track(algo, fn)
    algo.evolve()
    out.append((algo.final_generation_, [wl.snap_pop(p) for p in algo.population.sub_populations], best(algo)))
    return out


def run_env(rng, ind):
    if isinstance(ind, Vector):
        return {}
    return {k: (1.25 if t is None else wl.draw_value(rng, t)) for k, t in ind.terminal_set.items() if isinstance(k, str)}


def algorithms(rng, mon, executors=("thread",)):
    kind, c, pick = draw(rng, executors)
    opts = {"stats": rng.choice([[], [], ["baw"], ["min"], ["fmt", "min"], ["size", "baw"], ["fmt"]]), "term": rng.random() < 0.4,
            "gseed": rng.choice([0, 7, 2 ** 32 - 1, rng.randrange(2 ** 32)]) if rng.random() < 0.3 else None}
    a0, _ = build(kind, c, pick, opts)
    want = hist(a0)
    ngen = sum(1 for x in want if x[0] == "gen")
    when = rng.choice(["before", "before", "init", "gen", "gen", "after"])
    at = rng.randint(1, max(1, ngen))
    how, cp = copier(rng, pick)
    algo, sp = build(kind, c, pick, opts)
    made = []

    def copy_now(s):
        ref, g, b = config(s), genomes(s), best(s)
        fit = [[wl.fit_key(i) if i.fitness.is_fitness_evaluated() else None for i in p.individuals] if p.individuals is not None else None for p in s.population.sub_populations]
        new = cp(s)
        mon.check(new is not s and new.population is not s.population, "the copy is (part of) the original")
        made.append((new, ref, g, b, s.generation_num))
        mon.check(config(s) == ref and genomes(s) == g and best(s) == b, "copying changed the original")
        mon.eq([[wl.fit_key(i) if i.fitness.is_fitness_evaluated() else None for i in p.individuals] if p.individuals is not None else None for p in s.population.sub_populations], fit,
               "copying changed the original's fitness values")
        mon.event("copied_" + when)

    count = [0]

    def extra(ev, s):
        if ev == "gen":
            count[0] += 1
        if when == "init" and ev == "init" or when == "gen" and ev == "gen" and count[0] == at:
            copy_now(s)

    if when == "before":
        copy_now(algo)
    got = hist(algo, extra)
    mon.check(got == want, "copying influenced the run of the original", when=when, how=how, cfg=c)
    if when == "after":
        copy_now(algo)
    mon.event("originals_compared")
    if not made:
        return
    new, ref, g, b, gen = made[0]
    compare(mon, new, ref, f"copy made {when} by {how}", when == "before")
    mon.eq(genomes(new), g, "population genomes of the restored algorithm")
    mon.eq(best(new), b, "best individual of the restored algorithm")
    mon.eq(new.generation_num, gen, "generation number of the restored algorithm")
    if kind == "so" and opts["stats"] and when == "after":
        # the restored statistics write the same texts
        data = {"generation_num": 3, "population": algo.population}
        mon.eq(len(new.statistics), len(algo.statistics), "number of statistics of the restored algorithm")
        for s0, s1 in zip(algo.statistics, new.statistics):
            texts = []
            for st in (s0, s1):
                with captured() as cap, np.errstate(all="ignore"):
                    st.write_statistics(algo, data)
                    texts.append(cap.drain())
            mon.eq(texts[1], texts[0], "a restored statistic writes another text", kind=type(s0).__name__)
            mon.event("statistics_texts_compared")
    if new.best_of_run_ is not None and kind == "so":
        env = run_env(rng, new.best_of_run_)
        with np.errstate(all="ignore"):
            x = new.execute(**env)
        o = [a for a in (algo,) if best(a) == b]
        if o:
            with np.errstate(all="ignore"):
                y = o[0].execute(**env)
            mon.check(wl.same_value(x, y), "the restored algorithm executes differently", got=x, want=y)
            mon.event("executions_compared")
    if when == "before":
        mon.check(c.get("warm") or all(p.individuals is None for p in new.population.sub_populations), "running the original changed its copy")
        again = hist(new)
        for i, (x, y) in enumerate(zip(again, want)):
            if x != y:
                mon.fail("the restored algorithm evolves differently", at=i, how=how, got=short(x), want=short(y), cfg=c)
        mon.eq(len(again), len(want), "the restored algorithm evolves for another number of generations")
        mon.event("histories_compared")
    mon.sig(kind, when, how, at, wl.cfg_sig(c))
    mon.show(kind=kind, enc=c["enc"], when=when, how=how, generations=ngen)


def short(x):
    return repr(x)[:200]


def process(rng, mon):
    algorithms(rng, mon, ("process",))


# ------------------------------------------------------------------ estimators
def estimators(rng, mon):
    reg = rng.random() < 0.5
    d = rng.choice([1, 2])
    X = np.array([[rng.uniform(-2, 2) for _ in range(d)] for _ in range(8)])
    y = X[:, 0] * 2 if reg else (X[:, 0] > 0).astype(int)
    argmax = not reg and rng.random() < 0.4
    from eckity.base import untyped_functions as uf
    if argmax:
        kw = dict(function_set=[tf.argmax2floats, tf.add2floats, tf.mul2floats], terminal_set={f"x{i}": float for i in range(d)}, root_type=t_argmax)
    else:
        kw = dict(function_set=[uf.f_add, uf.f_mul, uf.f_sub, uf.f_abs], terminal_set=[f"x{i}" for i in range(d)], erc_range=(-1.0, 1.0))
    sub = Subpopulation(creators=rng.choice([FullCreator, GrowCreator])(init_depth=(2, 3), **kw), population_size=6,
                        evaluator=RegressionEvaluator() if reg else ClassificationEvaluator(clf_method="argmax" if argmax else "sigmoid"),
                        higher_is_better=not reg, operators_sequence=[SubtreeCrossover(), SubtreeMutation(init_depth=(1, 2)), ERCMutation()])
    est = (SKRegressor if reg else SKClassifier)(SimpleEvolution(sub, max_generation=rng.choice([1, 2]), max_workers=1,
                                                                 random_seed=rng.randrange(2 ** 32)))
    how, cp = copier(rng)
    fresh = cp(est)
    with np.errstate(all="ignore"):
        est.fit(X, y)
        p = np.asarray(est.predict(X))
        again = cp(est)
        Q = np.array([[rng.uniform(-5, 5) for _ in range(d)] for _ in range(5)])
        for D, w in ((X, p), (Q, np.asarray(est.predict(Q)))):
            g = np.asarray(again.predict(D))
            mon.check(wl.same_value(g, w), "the restored estimator predicts differently", got=g, want=w, how=how)
        mon.check(wl.same_value(np.asarray(est.predict(X)), p), "copying changed the original's predictions")
        fresh.fit(X, y)
        mon.check(wl.same_value(np.asarray(fresh.predict(X)), p), "a copy made before fitting fits differently", how=how)
    mon.event("estimators_restored")
    mon.sig(reg, argmax, how, wl.genome(est.algorithm.best_of_run_))
    mon.show(regressor=reg, argmax=argmax, how=how)


SCENARIOS = [
    Scenario(individuals, 6000, 40000, needs=("restored", "cached_fitness", "not_evaluated")),
    Scenario(algorithms, 1200, 12000, needs=("histories_compared", "copied_before", "copied_init", "copied_gen", "copied_after",
                                            "originals_compared", "executions_compared", "statistics_texts_compared")),
    Scenario(process, 16, 128, needs=("originals_compared",)),
    Scenario(estimators, 160, 3000, needs=("estimators_restored",)),
]
