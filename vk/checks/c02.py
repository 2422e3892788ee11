"""C02: faults reach the caller; no workers are left behind."""
import gc
import multiprocessing
import os
import signal
import tempfile
import threading
from concurrent.futures import BrokenExecutor, CancelledError, InvalidStateError

from eckity.algorithms import SimpleEvolution
from eckity.creators import GABitStringVectorCreator
from eckity.evaluators import SimpleIndividualEvaluator, SimplePopulationEvaluator
from eckity.genetic_operators import (BitStringVectorFlipMutation, GeneticOperator, TournamentSelection,
                                      VectorKPointsCrossover, FailableOperator)
from eckity.fitness import SimpleFitness
from eckity.genetic_operators.mutations.vector_n_point_mutation import VectorNPointMutation
from eckity.statistics.statistics import Statistics
from eckity.subpopulation import Subpopulation
from eckity.termination_checkers import TerminationChecker

from vk import wl, mo
from vk.core import Scenario

PROPERTY = "C02"
LEVEL = "fault_enumeration"
RULE = ("A case is a run with one injected fault: an exception of a drawn type raised by one user component "
        "(evaluator, operator, failable operator attempt, selection, creator, gene creator, termination checker, "
        "statistics, event callback) at its k-th call; in scenario enumerate_eval every evaluation index of the run is tried for "
        "every executor, method and worker count. Oracle: evolve must raise that exception (or one chained from it), "
        "a dead worker process must make it raise, and without a fault no worker thread or process may be alive when evolve returns. "
        "Non-trivial: the fault was actually reached; distinct by (component, fault index, exception type, executor, method, workers).")
ASSUMPTIONS = ["a fault is an exception raised by, or the death of the process that runs, a user component"]


class Boom(Exception):
    pass


class BoomStop(StopIteration):
    pass


class BoomKey(KeyError):
    pass


class BoomType(TypeError):
    pass


class BoomAttr(AttributeError):
    pass


class BoomValue(ValueError):
    pass


class BoomIndex(IndexError):
    pass


class BoomTimeout(TimeoutError):
    pass


class BoomAssert(AssertionError):
    pass


class BoomArith(ArithmeticError):
    pass


class BoomOS(OSError):
    pass


class BoomNotImpl(NotImplementedError):
    pass


KINDS = [Boom, BoomStop, BoomKey, BoomType, BoomAttr, BoomValue, BoomIndex, BoomTimeout, BoomAssert,
         BoomArith, BoomOS, BoomNotImpl, ZeroDivisionError, RuntimeError, OverflowError, CancelledError, InvalidStateError,
         BrokenExecutor, RecursionError, MemoryError, LookupError, FloatingPointError, NameError, PermissionError,
         ConnectionError, EOFError, BufferError, ReferenceError, UserWarning, KeyboardInterrupt, SystemExit, ImportError]


class Fuse:
    """Raises at the k-th call (thread-safe)."""

    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.hit = k, exc, 0, False
        self.lock = threading.Lock()

    def __call__(self):
        with self.lock:
            i = self.n
            self.n += 1
        if i == self.k:
            self.hit = True
            raise self.exc

    def __getstate__(self):
        d = self.__dict__.copy()
        d["lock"] = None
        return d

    def __setstate__(self, d):
        self.__dict__.update(d)
        self.lock = threading.Lock()

    def __deepcopy__(self, memo):
        return self


class FEval(SimpleIndividualEvaluator):
    def __init__(self, fuse):
        super().__init__()
        self.fuse = fuse

    def evaluate_individual(self, individual):
        self.fuse()
        return float(sum(individual.vector))


class FEvalMO(FEval):
    def evaluate_individual(self, individual):
        self.fuse()
        return [float(sum(individual.vector)), float(individual.vector[0])]


class FOp(GeneticOperator):
    def __init__(self, fuse, arity=1):
        super().__init__(probability=1, arity=arity)
        self.fuse = fuse

    def apply(self, individuals):
        self.fuse()
        return individuals


class FFail(FailableOperator):
    def __init__(self, fuse):
        super().__init__(probability=1, arity=1, attempts=3)
        self.fuse = fuse

    def attempt_operator(self, payload, attempt_num):
        self.fuse()
        return attempt_num == 1, payload


class FOnFail(FFail):
    def attempt_operator(self, payload, attempt_num):
        return False, payload

    def on_fail(self, payload):
        self.fuse()
        return payload


class FFit(SimpleFitness):
    """A user-defined fitness whose comparison (or its setting) may raise."""
    fuse = None
    where = "set"

    def set_fitness(self, fitness):
        if self.where == "set":
            self.fuse()
        super().set_fitness(fitness)

    def better_than(self, ind, other_fitness, other_ind):
        if self.where == "cmp":
            self.fuse()
        return super().better_than(ind, other_fitness, other_ind)


class FSel(TournamentSelection):
    def __init__(self, fuse, **kw):
        super().__init__(**kw)
        self.fuse = fuse

    def select(self, source_inds, dest_inds):
        self.fuse()
        return super().select(source_inds, dest_inds)


class FCreator(GABitStringVectorCreator):
    def __init__(self, fuse, **kw):
        super().__init__(**kw)
        self.fuse = fuse

    def create_individuals(self, n_individuals, higher_is_better):
        self.fuse()
        return super().create_individuals(n_individuals, higher_is_better)


class FTerm(TerminationChecker):
    def __init__(self, fuse):
        super().__init__()
        self.fuse = fuse

    def should_terminate(self, population, best_individual, gen_number):
        self.fuse()
        return False


class FStat(Statistics):
    def __init__(self, fuse):
        super().__init__("")
        self.fuse = fuse

    def write_statistics(self, sender, data_dict):
        self.fuse()


def chained(e, exc):
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if x is exc or (type(x) is type(exc) and x.args == exc.args):
            return True
        todo += [x.__cause__, x.__context__]
    return False


def workers_alive(before):
    return [t for t in threading.enumerate() if t not in before and t.is_alive()]


def run(mon, algo, exc, what):
    before = set(threading.enumerate())
    kids0 = {p.pid for p in multiprocessing.active_children()}
    try:
        algo.evolve()
    except BaseException as e:
        if type(e).__name__ in ("Violation", "NoProgress"):
            raise
        if exc is None:
            raise
        mon.check(chained(e, exc), f"{what}: evolve raised something else than the injected fault",
                  got=repr(e), want=repr(exc))
        mon.event("faults_propagated")
        ex = getattr(algo, "executor", None)
        if ex is not None:
            ex.shutdown()
        return True
    if exc is None:
        mon.event("clean_runs")
        left = workers_alive(before)
        mon.check(not left, f"{what}: worker threads alive after evolve returned", threads=left)
        kids = [p for p in multiprocessing.active_children() if p.pid not in kids0]
        mon.check(not kids, f"{what}: worker processes alive after evolve returned", processes=kids)
    return False


def mk(rng, fuse, comp, P, G, execu, method, workers, elit, nsga=False, exc_in_event=None):
    if nsga:
        from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
        from eckity.genetic_encodings.ga import BitStringVector
        from eckity.multi_objective_evolution import NSGA2Evolution
        from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
        ev = FEvalMO(fuse if comp == "eval" else Fuse(-1, None))
        creator = GAVectorCreator(length=4, bounds=(0, 1), fitness_type=NSGA2Fitness, vector_type=BitStringVector)
    else:
        ev = FEval(fuse if comp == "eval" else Fuse(-1, None))
        kw = dict(length=4)
        if comp == "gene":
            def gene(ind, i):
                fuse()
                return ind.get_random_number_in_bounds(i)
            kw["gene_creator"] = gene
        mkc = lambda: FCreator(fuse if comp == "creator" else Fuse(-1, None), **kw)
        creator = mkc()
        if comp.startswith("fit:"):
            creator.fitness_type = type("UserFitness", (FFit,), {"fuse": fuse, "where": comp[4:]})
        elif rng.random() < 0.4:
            creator = [mkc() for _ in range(rng.choice([1, 2, 3]))]
    ops = [VectorKPointsCrossover(probability=0.7), BitStringVectorFlipMutation(probability=0.5)]
    if comp == "op":
        ops.insert(rng.randrange(3), FOp(fuse, rng.choice([1, 2])))
    if comp == "onfail":
        ops.insert(rng.randrange(3), FOnFail(fuse))
    if comp.startswith("vec:"):
        def trip(v):
            fuse()
            return v
        w = comp[4:]
        ops.insert(rng.randrange(3), VectorNPointMutation(
            n=1, probability=1, attempts=2,
            cell_selector=(lambda v: trip([0])) if w == "cell" else None,
            mut_val_getter=(lambda v, i: trip(1)) if w == "value" else None,
            success_checker=(lambda a, b: trip(True)) if w == "success" else None))
    if comp == "fop":
        ops.insert(rng.randrange(3), FFail(fuse))
    sel = FSel(fuse if comp == "sel" else Fuse(-1, None), tournament_size=2, higher_is_better=True)
    sp = Subpopulation(creators=creator, population_size=P, evaluator=ev, higher_is_better=True,
                       elitism_rate=elit, operators_sequence=ops, selection_methods=[(sel, 1)])
    kw = dict(max_generation=G, executor=execu, max_workers=workers, random_seed=rng.randrange(2 ** 32),
              population_evaluator=SimplePopulationEvaluator(executor_method=method))
    if comp == "term":
        t = FTerm(fuse)
        kw["termination_checker"] = rng.choice([t, [t], [FTerm(Fuse(-1, None)), t]])
    if comp == "stat":
        kw["statistics"] = rng.choice([FStat(fuse), [FStat(Fuse(-1, None)), FStat(fuse)]])
    cls = NSGA2Evolution if nsga else SimpleEvolution
    if comp == "init:breeder":
        from eckity.breeders import SimpleBreeder
        from eckity.multi_objective_evolution import NSGA2Breeder
        kw["breeder"] = type("UserBreeder", (NSGA2Breeder if nsga else SimpleBreeder,), {"initialize": lambda self: fuse()})()
    if comp == "init:peval":
        kw["population_evaluator"] = type("UserPopEval", (SimplePopulationEvaluator,), {"initialize": lambda self: fuse()})(
            executor_method=method)
    algo = cls(sp, **kw)
    if comp.startswith("ev:"):
        algo.register(comp[3:], lambda s, d: fuse())
    if comp.startswith("pub:"):
        {"breeder": algo.breeder, "peval": algo.population_evaluator}[comp.split(":")[1]].register(
            comp.split(":")[2], lambda s, d: fuse())
    return algo, sp


COMPONENTS = ["eval", "op", "fop", "sel", "creator", "gene", "term", "stat", "ev:init", "ev:after_generation",
              "ev:evolution_finished", "pub:breeder:before_operator", "pub:breeder:after_operator",
              "pub:peval:before_operator", "pub:peval:after_operator", "onfail", "vec:cell", "vec:value", "vec:success",
              "fit:set", "fit:cmp", "init:breeder", "init:peval"]


def calls(comp, P, G, elit):
    """Upper bound on the number of calls a component gets in a run."""
    return {"init:breeder": 1, "init:peval": 1, "onfail": P * G, "vec:cell": P * G, "vec:value": P * G, "vec:success": P * G, "fit:set": P * (G + 1),
            "fit:cmp": (P - 1) * (2 * G + 1), "eval": P * (G + 1), "op": P * G, "fop": P * G, "sel": G, "creator": 1, "gene": 4 * P,
            "term": G + 1, "stat": G, "ev:init": 1, "ev:after_generation": G, "ev:evolution_finished": 1,
            "pub:breeder:before_operator": G, "pub:breeder:after_operator": G,
            "pub:peval:before_operator": G + 1, "pub:peval:after_operator": G + 1}[comp]


def components(rng, mon):
    comp = rng.choice(COMPONENTS)
    P, G = rng.choice([2, 4, 6, 8]), wl.rare(rng, [1, 2, 3], [6, 11], 0.1)
    elit = rng.choice([0.0, 0.25, 0.5])
    execu = rng.choice(["thread", "thread", "thread", "process"]) if comp != "eval" and comp[:4] not in ("fit:", "vec:") else "thread"
    nsga = comp not in ("creator", "gene", "sel", "fit:set", "fit:cmp") and rng.random() < 0.3
    k = rng.randrange(max(1, calls(comp, P, G, elit)))
    exc = rng.choice(KINDS)(f"injected {rng.random()}")
    fuse = Fuse(k, exc)
    workers = rng.choice([1, 2, 4])
    method = rng.choice(["map", "submit"])
    algo, sp = mk(rng, fuse, comp, P, G, execu, method, workers, elit, nsga)
    raised = run(mon, algo, exc, f"{comp} call {k}")
    mon.check(raised == fuse.hit, "evolve completed although a component raised" if fuse.hit
              else "evolve raised without a fault", component=comp, call=k, exc=repr(exc), nsga=nsga)
    if fuse.hit:
        mon.event("faults_injected")
        mon.event("fault:" + comp)
        mon.sig(comp, k, type(exc).__name__, execu, method, workers, nsga)
        mon.show(component=comp, call=k, exception=type(exc).__name__, executor=execu, method=method, pop=P, gens=G)


def enumerate_eval(rng, mon):
    """Every evaluation index of a run, for a drawn (executor, method, workers) combination."""
    P, G = rng.choice([2, 4, 6]), rng.choice([1, 2])
    method = rng.choice(["map", "submit"])
    workers = rng.choice([1, 2, 3, 8])
    nsga = rng.random() < 0.3
    n = P + (2 * P if nsga else P) * G
    for k in range(n):
        exc = rng.choice(KINDS)(f"injected {rng.random()}")
        fuse = Fuse(k, exc)
        algo, sp = mk(rng, fuse, "eval", P, G, "thread", method, workers, 0.0, nsga)
        raised = run(mon, algo, exc, f"evaluation {k}")
        mon.check(fuse.hit, "the evaluation with this index never happened", k=k, n=n)
        mon.check(raised, "evolve completed although an evaluation raised", k=k, method=method, workers=workers,
                  fitness=[i.fitness.fitness for i in sp.individuals])
        mon.event("faults_injected")
        mon.sig("eval", k, type(exc).__name__, method, workers, nsga, P, G)
    mon.event("fault_points_enumerated", n)
    mon.show(population=P, generations=G, method=method, workers=workers, fault_points=n)


class ProcEval(SimpleIndividualEvaluator):
    """Fails in a worker process for the individual whose id is given."""

    def __init__(self, bad, how):
        super().__init__()
        self.bad, self.how = bad, how

    def evaluate_individual(self, individual):
        if individual.gen == self.bad[0] and wl.h64(individual.vector, "p") % 3 == self.bad[1]:
            if self.how == "exit":
                os._exit(3)
            if self.how == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
            raise Boom("in worker", self.bad)
        return float(sum(individual.vector))


def proc_faults(rng, mon):
    how = rng.choice(["raise", "exit", "kill", "raise"])
    bad = (rng.choice([0, 1, 2]), rng.randrange(3))
    G = rng.choice([1, 2])
    method = rng.choice(["map", "submit"])
    ev = ProcEval(bad, how)
    sp = Subpopulation(creators=GABitStringVectorCreator(length=6), population_size=rng.choice([4, 6]),
                       evaluator=ev, higher_is_better=True,
                       operators_sequence=[BitStringVectorFlipMutation(probability=0.9)],
                       selection_methods=[(TournamentSelection(2, higher_is_better=True), 1)])
    algo = SimpleEvolution(sp, max_generation=G, executor="process", max_workers=rng.choice([1, 2]),
                           random_seed=rng.randrange(2 ** 32),
                           population_evaluator=SimplePopulationEvaluator(executor_method=method))
    seen = []
    algo.register("init", lambda s, d: seen.append([list(i.vector) for i in sp.individuals]))
    algo.register("after_generation", lambda s, d: seen.append([list(i.vector) for i in sp.individuals]))
    kids0 = {p.pid for p in multiprocessing.active_children()}
    try:
        algo.evolve()
    except Exception as e:
        mon.event("proc_faults_propagated")
        if how == "raise":
            mon.check(isinstance(e, Boom) and e.args == ("in worker", bad),
                      "evolve raised something else than the worker's exception", got=repr(e))
        else:
            mon.check(isinstance(e, BrokenExecutor), "evolve raised something else than a broken pool", got=repr(e))
        mon.sig("proc", how, bad, method, G)
        mon.show(how=how, generation=bad[0], method=method)
        ex = getattr(algo, "executor", None)
        if ex is not None:
            ex.shutdown()
        return
    # completed: then no evaluated individual may have been a bad one
    for g, vs in enumerate(seen):
        for v in vs:
            mon.check(not (g == bad[0] and wl.h64(v, "p") % 3 == bad[1]),
                      "evolve completed although a worker failed", how=how, gen=g, vector=v)
    kids = [p for p in multiprocessing.active_children() if p.pid not in kids0]
    mon.check(not kids, "worker processes alive after evolve returned", processes=kids)


def clean(rng, mon):
    """No fault: the run completes and leaves no worker behind; early termination included."""
    nsga = rng.random() < 0.4
    execu = rng.choice(["thread", "thread", "process"])
    G = rng.choice([0, 1, 2, 3])
    P = rng.choice([2, 4, 8, 12])
    stop_at = rng.choice([None, 0, 1, 2])
    algo, sp = mk(rng, Fuse(-1, None), "none", P, G, execu, rng.choice(["map", "submit"]),
                  rng.choice([1, 2, 4, None]) if execu == "thread" else rng.choice([1, 2]),
                  rng.choice([0.0, 0.5]), nsga)
    if stop_at is not None:
        class Stop(TerminationChecker):
            def should_terminate(self, population, best_individual, gen_number):
                return gen_number >= stop_at
        algo.termination_checker = Stop()
    run(mon, algo, None, f"clean run ({'nsga2' if nsga else 'simple'}, {execu})")
    mon.sig("clean", nsga, execu, G, P, stop_at)


def sklearn_clean(rng, mon):
    """Fitting an estimator leaves no workers either, and faults of the metric reach fit."""
    import numpy as np
    from eckity.creators import FullCreator
    from eckity.base.untyped_functions import f_add, f_mul
    from eckity.genetic_operators import SubtreeCrossover
    from eckity.sklearn_compatible.regression_evaluator import RegressionEvaluator
    from eckity.sklearn_compatible.sk_regressor import SKRegressor
    G = rng.choice([0, 1, 2])
    P = 4
    inject = rng.random() < 0.6
    exc = rng.choice(KINDS)("metric")
    fuse = Fuse(rng.randrange(P * (G + 1)) if inject else -1, exc)

    def metric(y, p):
        fuse()
        return float(np.mean(np.abs(y - p)))

    sp = Subpopulation(creators=FullCreator(init_depth=(1, 2), function_set=[f_add, f_mul], terminal_set=["x0", "x1"]),
                       population_size=P, evaluator=RegressionEvaluator(metric=metric),
                       operators_sequence=[SubtreeCrossover(probability=0.9)],
                       selection_methods=[(TournamentSelection(2), 1)])
    algo = SimpleEvolution(sp, max_generation=G, max_workers=2)
    before = set(threading.enumerate())
    X = np.random.rand(5, 2)
    try:
        SKRegressor(algo).fit(X, X[:, 0])
    except BaseException as e:
        if type(e).__name__ in ("Violation", "NoProgress"):
            raise
        mon.check(inject and chained(e, exc), "fit raised something else than the injected fault", got=repr(e))
        mon.event("faults_propagated")
        algo.executor.shutdown()
        return
    mon.check(not inject, "fit completed although the metric raised")
    left = workers_alive(before)
    mon.check(not left, "worker threads alive after fit returned", threads=left)
    mon.sig("sk", G, inject)


SCENARIOS = [
    Scenario(components, 700, 12000, needs=("faults_injected", "faults_propagated")),
    Scenario(enumerate_eval, 48, 900, needs=("fault_points_enumerated",)),
    Scenario(proc_faults, 80, 1200, needs=("proc_faults_propagated",)),
    Scenario(clean, 160, 2400, needs=("clean_runs",)),
    Scenario(sklearn_clean, 32, 400),
]
