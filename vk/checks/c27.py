"""C27: invalid configurations are rejected, their valid neighbours are not."""
import copy
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from eckity.algorithms import SimpleEvolution
from eckity.base import typed_functions as tf
from eckity.base import untyped_functions as uf
from eckity.breeders import SimpleBreeder
from eckity.creators import FullCreator, GABitStringVectorCreator, GAFloatVectorCreator, GAIntVectorCreator, GrowCreator, HalfCreator
from eckity.evaluators import SimplePopulationEvaluator
from eckity.fitness import GPFitness, SimpleFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector
from eckity.genetic_encodings.gp import FunctionNode, Tree
from eckity.genetic_operators import (BitStringVectorFlipMutation, BitStringVectorNFlipMutation, ERCMutation,
                                      FloatVectorGaussNPointMutation, FloatVectorUniformNPointMutation, IntVectorNPointMutation,
                                      FitnessProportionateSelection, SubtreeCrossover, SubtreeMutation, TournamentSelection,
                                      VectorKPointsCrossover)
from eckity.multi_objective_evolution import NSGA2Breeder, NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.population import Population
from eckity.sklearn_compatible import ClassificationEvaluator
from eckity.statistics import BestAverageWorstStatistics, MinimalPrintStatistics
from eckity.subpopulation import Subpopulation

from vk import wl
from vk.core import Scenario

PROPERTY = "C27"
LEVEL = "exploration"
RULE = ("A case draws one kind of documented restriction and, around its boundary, an invalid argument combination and a valid "
        "neighbour of it, and constructs and uses the component with each: the invalid one must raise (leaving populations, "
        "destinations and individuals as they were), the valid one must be accepted. Non-trivial: every case; distinct by "
        "kind and arguments.")
ASSUMPTIONS = ["the class of the error and whether it is raised on construction or on first use are left open"]


def rejected(mon, fn, what, **detail):
    try:
        r = fn()
    except Exception as e:
        mon.event("rejections")
        return e
    mon.fail(f"accepted: {what}", result=r, **detail)


def accepted(mon, fn, what, **detail):
    try:
        r = fn()
    except Exception as e:
        mon.fail(f"rejected a valid argument: {what}: {type(e).__name__}: {e}", **detail)
    mon.event("acceptances")
    return r


def creator(rng=None):
    return GABitStringVectorCreator(length=3)


def subpop(n=4, **kw):
    a = dict(creators=creator(), population_size=n, evaluator=wl.PureEval("hash"), operators_sequence=[BitStringVectorFlipMutation()],
             selection_methods=[(TournamentSelection(tournament_size=2), 1)])
    a.update(kw)
    return Subpopulation(**a)


def run1(pop, cls=SimpleEvolution, **kw):
    kw.setdefault("max_generation", 1)
    a = cls(pop, random_seed=3, max_workers=1, **kw)
    a.evolve()
    return a


def spoiled(rng, good, bads):
    """A list of 1-7 valid elements with one invalid element at a random position."""
    x = [good() for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6]))]
    x.insert(rng.randrange(len(x) + 1), rng.choice(bads))
    return x


def k_population(rng, mon):
    cls = rng.choice([SimpleEvolution, SimpleEvolution, NSGA2Evolution])
    bad = rng.choice([lambda: None, lambda: 0, lambda: "x", lambda: [], lambda: [subpop(), None], lambda: [1], lambda: [None], object,
                      lambda: [subpop(), creator()], lambda: {"a": subpop()}, lambda: creator(),
                      lambda: [Population([subpop()])]])
    if rng.random() < 0.5:
        bad = lambda: spoiled(rng, subpop, [None, 1, "x", creator(), [], [subpop()], Subpopulation, BitStringVectorFlipMutation()])
    p = bad()
    rejected(mon, lambda: cls(p, max_workers=1), "population of the wrong type or empty", population=p, algorithm=cls.__name__)
    good = rng.choice([lambda: subpop(), lambda: [subpop()], lambda: Population([subpop()])])
    accepted(mon, lambda: run1(good()), "population")
    return (cls.__name__, type(p).__name__, repr(p)[:20])


def k_statistics(rng, mon):
    cls = rng.choice([SimpleEvolution, NSGA2Evolution])
    st = BestAverageWorstStatistics()
    bad = rng.choice([5, "x", [st, 3], [None], ["best"], {}, [st, [st]], BestAverageWorstStatistics, [MinimalPrintStatistics], 0, False])
    if bad == {} and isinstance(bad, dict):
        bad = {"a": st}
    if rng.random() < 0.5:
        bad = spoiled(rng, rng.choice([BestAverageWorstStatistics, MinimalPrintStatistics]), [None, 1, "x", [st], MinimalPrintStatistics, creator()])
    if rng.random() < 0.15:
        bad = (st,) if rng.random() < 0.5 else {st}
    rejected(mon, lambda: cls(subpop(), statistics=bad, max_workers=1), "statistics of the wrong type", statistics=bad)
    good = rng.choice([st, [st], [], [st, MinimalPrintStatistics()], None, [MinimalPrintStatistics() for _ in range(5)]])
    accepted(mon, lambda: run1(subpop(), statistics=good), "statistics", statistics=good)
    return (cls.__name__, repr(bad)[:30])


def k_creators(rng, mon):
    bad = rng.choice([None, [], [creator(), 3], 7, [None], "grow", [creator(), BitStringVectorFlipMutation()], GABitStringVectorCreator,
                      [creator(), None, creator()], {"c": creator()}])
    if rng.random() < 0.5:
        bad = spoiled(rng, creator, [None, 1, "x", [creator()], GABitStringVectorCreator, BitStringVectorFlipMutation(), subpop()])
    rejected(mon, lambda: subpop(creators=bad), "creators of the wrong type or empty", creators=bad)
    good = rng.choice([creator(), [creator()], [creator() for _ in range(rng.choice([2, 3, 6]))]])
    accepted(mon, lambda: run1(subpop(creators=good)), "creators")
    return repr(bad)[:25]


def k_operators(rng, mon):
    rejected(mon, lambda: subpop(operators_sequence=None), "no operators")
    accepted(mon, lambda: run1(subpop(operators_sequence=[VectorKPointsCrossover()])), "operators")
    return ()


def k_breeder(rng, mon):
    bad = rng.choice([object(), BitStringVectorFlipMutation(), "simple", 5, SimplePopulationEvaluator(), SimpleBreeder, [SimpleBreeder()],
                      True, TournamentSelection(tournament_size=2)])
    rejected(mon, lambda: SimpleEvolution(subpop(), breeder=bad, max_workers=1), "breeder of the wrong type", breeder=bad)

    class Mine(SimpleBreeder):
        pass
    good = rng.choice([SimpleBreeder, Mine, lambda: None])()
    accepted(mon, lambda: run1(subpop(), breeder=good), "breeder", breeder=good)
    return repr(bad)[:25]


def k_evaluator(rng, mon):
    bad = rng.choice([object(), wl.PureEval("hash"), "map", 5, SimpleBreeder(), SimplePopulationEvaluator, [SimplePopulationEvaluator()], True])
    rejected(mon, lambda: SimpleEvolution(subpop(), population_evaluator=bad, max_workers=1), "population evaluator of the wrong type", evaluator=bad)

    class Mine(SimplePopulationEvaluator):
        pass
    good = rng.choice([SimplePopulationEvaluator, Mine, lambda: None])()
    accepted(mon, lambda: run1(subpop(), population_evaluator=good), "population evaluator", evaluator=good)
    return repr(bad)[:25]


def k_pcr(rng, mon):
    n = rng.choice([1, 2, 2, 3, 5, 10])
    crs = [creator() for _ in range(n)]
    w = [rng.random() for _ in range(n)]
    s = sum(w)
    good = rng.choice([[x / s for x in w], [1 / n] * n, [1.0] + [0.0] * (n - 1), None])
    accepted(mon, lambda: run1(subpop(creators=list(crs), pcr=good)), "creation probabilities", pcr=good)
    kind = rng.choice(["longer", "shorter", "sum", "sum", "sum", "empty", "negative"])
    base = [x / s for x in w]
    if kind == "longer":
        bad = rng.choice([base + [0.0], [1 / (n + 1)] * (n + 1), [0.0] + base])
    elif kind == "shorter" and n > 1:
        bad = rng.choice([[1 / (n - 1)] * (n - 1), [1.0]])
    elif kind == "empty":
        bad = []
    elif kind == "negative" and n > 1:
        bad = [-x if k == n - 1 else x for k, x in enumerate([1 / n] * n)]      # only the absolute values sum to 1
    else:
        f = rng.choice([0.5, 0.9, 0.99, 0.999, 1.001, 1.01, 1.1, 2.0, 0.0])
        bad = [x * f for x in base]
    if n == 1 and bad == [1.0]:
        bad = [0.5]
    rejected(mon, lambda: subpop(creators=list(crs), pcr=bad), "creation probabilities that do not match or do not sum to 1", creators=n,
             pcr=bad, sum=sum(bad))
    return (n, kind, bad)


def k_executor(rng, mon):
    cls = rng.choice([SimpleEvolution, NSGA2Evolution])
    bad = rng.choice(["threads", "Process", "THREAD", "", None, 4, "thread ", "proc", "sequential", ThreadPoolExecutor])
    rejected(mon, lambda: cls(subpop(), executor=bad, max_workers=1), "unknown executor", executor=bad)
    accepted(mon, lambda: run1(subpop(), executor="thread"), "executor")
    return (cls.__name__, str(bad))


def k_method(rng, mon):
    bad = rng.choice(["Map", "MAP", "", None, "submits", "imap", 1, "starmap"])
    rejected(mon, lambda: run1(subpop(), population_evaluator=SimplePopulationEvaluator(executor_method=bad)), "unknown evaluation method", method=bad)
    good = rng.choice(["map", "submit"])
    accepted(mon, lambda: run1(subpop(), population_evaluator=SimplePopulationEvaluator(executor_method=good)), "evaluation method")
    return str(bad)


VEC = {"bit": (BitStringVector, (0, 1), 1, GABitStringVectorCreator), "int": (IntVector, (-3, 9), 4, GAIntVectorCreator),
       "float": (FloatVector, (0.0, 2.0), 0.5, GAFloatVectorCreator)}


def k_bounds(rng, mon):
    cls, b, v, cr = VEC[rng.choice(list(VEC))]
    L = rng.choice([1, 2, 3, 4, 8])
    fit = lambda: SimpleFitness(higher_is_better=True)
    good = rng.choice([b, [b] * L])
    vec = rng.choice([None, [v] * L])
    accepted(mon, lambda: cls(fitness=fit(), length=L, bounds=good, vector=vec), "bounds and vector", length=L, bounds=good)
    accepted(mon, lambda: cr(length=L, bounds=good).create_individuals(3, True), "bounds in a creator", length=L, bounds=good)
    kind = rng.choice(["tuple1", "tuple3", "tuple0", "short", "long", "double", "vtype", "vtype2", "vlen", "vlen+"])
    bad, bvec = good, vec
    if kind == "tuple1":
        bad = (b[0],)
    elif kind == "tuple3":
        bad = rng.choice([(b[0], b[1], b[1]), (b,) * 3])
    elif kind == "tuple0":
        bad = ()
    elif kind == "short":
        bad = [b] * (L - 1)
    elif kind == "long":
        bad = [b] * (L + 1)
    elif kind == "double":
        bad = [b] * (2 * L)
    elif kind == "vtype":
        bvec = tuple([v] * L)
    elif kind == "vtype2":
        bvec = np.array([v] * L)
    elif kind == "vlen":
        bvec = [v] * (L - 1)
    else:
        bvec = [v] * (L + 1)
    rejected(mon, lambda: cls(fitness=fit(), length=L, bounds=bad, vector=bvec), "bounds or vector that do not match the length",
             cls=cls.__name__, length=L, bounds=bad, vector=bvec)
    if not kind.startswith("v"):
        rejected(mon, lambda: cr(length=L, bounds=bad).create_individuals(3, True), "creator bounds that do not match the length",
                 cls=cr.__name__, length=L, bounds=bad)
    return (cls.__name__, L, kind)


def partly1(x: float, y) -> float:
    return x


def partly2(x, y) -> float:
    return x


def partly3(x: float, y: float):
    return x


def partly4(x: float):
    return x


def only_ret(x, y) -> float:
    return x


def one_arg(x, y: float):
    return x


def f2f(x: float) -> float:
    return x


def f2b(x: float) -> bool:
    return x > 0


def b2f(x: bool) -> float:
    return 1.0


def i2i(x: int) -> int:
    return x


def k_types(rng, mon):
    kind = rng.choice(["nofuncs", "noterms", "noncallable", "termtype", "typed_list", "nontype", "root", "erc", "args", "args2", "hints",
                       "mixed"])
    good_t = wl.typed_sets(rng)
    good_u = wl.untyped_sets(rng)

    def use(s, how):
        kw = dict(function_set=s["funcs"], terminal_set=s["terms"], erc_range=s["erc"], root_type=s["root"])
        if how == "tree":
            return Tree(**kw)
        c = {"full": FullCreator, "grow": GrowCreator, "half": HalfCreator}[how](init_depth=(1, 2), **kw)
        return c.create_individuals(8, False)

    how = rng.choice(["tree", "full", "grow", "half"])
    g = rng.choice([good_t, good_u])
    accepted(mon, lambda: use(g, how), "function and terminal sets", sets=g)
    bad = {"funcs": list(g["funcs"]), "terms": copy.copy(g["terms"]), "erc": g["erc"], "root": g["root"]}
    if kind == "nofuncs":
        bad["funcs"] = None
    elif kind == "noterms":
        bad["terms"] = None
    elif kind == "noncallable":
        bad["funcs"].insert(rng.randrange(len(bad["funcs"]) + 1), rng.choice(["f_add", 3, None, uf]))
    elif kind == "termtype":
        bad["terms"] = rng.choice([set(bad["terms"]), tuple(bad["terms"]), "xyz", 5])
    elif kind == "typed_list":
        bad = {"funcs": rng.choice([list(good_t["funcs"]), [uf.f_add, tf.add2floats], [tf.add2floats], [uf.f_add, partly4],
                                     [only_ret, uf.f_add], [uf.f_add, uf.f_sub, uf.f_mul, one_arg]]), "terms": list(good_u["terms"]), "erc": None,
               "root": rng.choice([None, float])}
    elif kind == "nontype":
        t = copy.copy(good_t["terms"])
        t[rng.choice(list(t))] = rng.choice([3, "float", None, 1.0])
        bad = {"funcs": list(good_t["funcs"]), "terms": t, "erc": good_t["erc"], "root": good_t["root"]}
    elif kind == "root" and rng.random() < 0.4:
        # the type of terminals and arguments, but of no function
        bad = rng.choice([{"funcs": [f2b, tf.not2bools], "terms": {"x": float, "b": bool}, "erc": None, "root": float},
                          {"funcs": [b2f, f2f], "terms": {"x": float, "b": bool}, "erc": None, "root": bool}])
        rng.shuffle(bad["funcs"])
    elif kind == "root":
        rets = {wl.hints(f)[1] for f in good_t["funcs"]}
        other = [t for t in (int, float, bool, str, complex, None) if t not in rets]
        bad = {"funcs": list(good_t["funcs"]), "terms": good_t["terms"], "erc": good_t["erc"], "root": rng.choice(other)}
    elif kind == "erc":
        # no function returns the type of the constants
        bad = rng.choice([{"funcs": [tf.and2bools, tf.not2bools], "terms": {"a": bool}, "erc": (0.0, 1.0), "root": bool},
                          {"funcs": [tf.add2floats], "terms": {"x": float}, "erc": (0, 5), "root": float},
                          {"funcs": [i2i], "terms": {"x": int}, "erc": (0.0, 5.0), "root": int}])
    elif kind == "args":
        # an argument type without terminals
        bad = rng.choice([{"funcs": [f2b, b2f], "terms": {"x": float}, "erc": None, "root": float},
                          {"funcs": [f2b, b2f], "terms": {"x": bool}, "erc": None, "root": bool},
                          {"funcs": [tf.add2floats, i2i], "terms": {"x": float, 2.5: float}, "erc": None, "root": float}])
    elif kind == "args2":
        # terminals of a type that no function takes
        bad = rng.choice([{"funcs": [tf.add2floats], "terms": {"x": float, "b": bool}, "erc": None, "root": float},
                          {"funcs": [tf.add2floats], "terms": {"x": float, 3: int}, "erc": None, "root": float},
                          {"funcs": [i2i], "terms": {"s": str, "i": int}, "erc": None, "root": int}])
    elif kind == "hints":
        f = rng.choice([partly1, partly2, partly3, partly4])
        rejected(mon, lambda: FunctionNode(f), "function with missing type hints", function=f.__name__)
        accepted(mon, lambda: [FunctionNode(x) for x in (tf.add2floats, uf.f_add, f2b)], "function nodes")
        return (kind, f.__name__)
    elif kind == "mixed":
        bad = {"funcs": [uf.f_add, uf.f_sub], "terms": {"x": float}, "erc": None, "root": float}
    rejected(mon, lambda: use(bad, how), f"function and terminal sets ({kind})", how=how, sets=bad)
    return (kind, how, str(bad)[:200])


def k_arity(rng, mon):
    """Population sizes that the operators' arities do not divide."""
    ar = rng.choice([2, 2, 3, 4, 5, 7])
    n = rng.choice([1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 15])

    class Op(wl.Opaque):
        def apply(self, individuals):
            return individuals

    def ops():
        o = [BitStringVectorFlipMutation() if k else Op(arity=1) for k in fill]
        o.insert(at, Op(arity=ar, probability=pr))
        return o
    fill = [rng.random() < 0.5 for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    at = rng.randrange(len(fill) + 1)
    pr = rng.choice([0.0, 0.5, 1.0])
    ok = n % ar == 0
    direct = rng.random() < 0.5

    def go():
        sp = subpop(n, operators_sequence=ops(), elitism_rate=el)
        if not direct:
            return run1(sp)
        sp.individuals = creator().create_individuals(n, False)
        for i in sp.individuals:
            i.fitness.set_fitness(float(i.id))
        before = list(sp.individuals)
        try:
            SimpleBreeder().breed(Population([sp]))
        except Exception:
            mon.check(sp.individuals == before and all(i.fitness.is_fitness_evaluated() for i in before), "a rejected breeding changed the population")
            raise
        return sp
    el = rng.choice([0.0, 0.0, 0.5])
    if ok:
        accepted(mon, go, "population size divisible by the arity", size=n, arity=ar)
        mon.event("divisible")
    else:
        rejected(mon, go, "population size that an operator's arity does not divide", size=n, arity=ar, direct=direct)
    return (ar, n, direct, el, fill, at, pr)


def k_group(rng, mon):
    """Subtree crossover of another number of programs than its arity."""
    sets = wl.untyped_sets(rng)
    ar = rng.choice([2, 2, 3, 4])
    n = rng.choice([x for x in (0, 1, 2, 3, 4, 5) if x != ar])
    make1 = lambda: wl.make_tree(sets, wl.random_nodes(rng, sets))
    bad = [make1() for _ in range(n)]
    before = [wl.genome(i) for i in bad]
    rejected(mon, lambda: SubtreeCrossover(probability=1, arity=ar).apply(bad), "crossover of a wrong number of programs", arity=ar, programs=n)
    mon.eq([wl.genome(i) for i in bad], before, "programs after a rejected crossover")
    accepted(mon, lambda: SubtreeCrossover(probability=1, arity=ar).apply([make1() for _ in range(ar)]), "crossover", arity=ar)
    return (ar, n)


def k_half(rng, mon):
    lo = rng.choice([0, 1, 2])
    hi = lo + rng.choice([0, 1, 2, 3])
    need = 2 * (hi - lo + 1)
    n = rng.choice([need - 1, need - 2, 1, need, need + 1, 3 * need + 1])
    s = wl.untyped_sets(rng)
    mk = lambda: HalfCreator(init_depth=(lo, hi), function_set=s["funcs"], terminal_set=s["terms"]).create_individuals(n, True)
    if n >= need:
        r = accepted(mon, mk, "half-and-half population", size=n, depth=(lo, hi))
        mon.eq(len(r), n, "number of individuals created")
    elif n > 0:
        rejected(mon, mk, "half-and-half population too small for the depth range", size=n, depth=(lo, hi))
    return (lo, hi, n)


def k_tournament(rng, mon):
    n = rng.choice([1, 2, 4, 7, 20])
    hib = rng.random() < 0.5
    inds = creator().create_individuals(n, hib)
    for i in inds:
        i.fitness.set_fitness(rng.random())
    ts = n + rng.choice([1, 1, 2, 10])
    dest = []
    src = list(inds)
    rejected(mon, lambda: TournamentSelection(tournament_size=ts, higher_is_better=hib, replace=False).select(src, dest),
             "tournament larger than the population without replacement", size=ts, individuals=n)
    mon.check(dest == [] and src == inds, "a rejected selection changed its arguments")
    accepted(mon, lambda: TournamentSelection(tournament_size=n, higher_is_better=hib, replace=False).select(src, []), "tournament of everybody")
    accepted(mon, lambda: TournamentSelection(tournament_size=ts, higher_is_better=hib).select(src, []), "large tournament with replacement")
    return (n, ts)


def k_payload(rng, mon):
    """act() with a number of individuals that is not the operator's arity."""
    kind = rng.choice(["vec", "vec", "gp"])
    if kind == "vec":
        op = rng.choice([lambda: BitStringVectorFlipMutation(probability=1.0), lambda: VectorKPointsCrossover(probability=1.0),
                         lambda: BitStringVectorNFlipMutation(n=2), lambda: wl.Opaque(arity=rng.choice([1, 2, 3]))])()
        mk = lambda k: creator().create_individuals(k, True)
    else:
        s = wl.untyped_sets(rng)
        op = rng.choice([lambda: SubtreeCrossover(), lambda: SubtreeMutation(), lambda: ERCMutation(), lambda: SubtreeCrossover(arity=3)])()
        mk = lambda k: [wl.make_tree(s, wl.random_nodes(rng, s)) for _ in range(k)]
    a = op.get_operator_arity()
    k = rng.choice([x for x in (0, 1, 2, 3, 4, 5) if x != a])
    inds = mk(k)
    before = [wl.genome(i) for i in inds]
    rejected(mon, lambda: op.act(inds), "payload that does not match the operator's arity", operator=type(op).__name__, arity=a, payload=k)
    mon.check([wl.genome(i) for i in inds] == before, "a rejected payload was modified")
    if a != 1:
        one = mk(1)[0]
        rejected(mon, lambda: op.act(one), "a single individual for an operator with a larger arity", operator=type(op).__name__, arity=a)
    good = mk(a)
    accepted(mon, lambda: op.act(good), "payload of the operator's arity", operator=type(op).__name__, arity=a)
    return (type(op).__name__, a, k)


def k_attempts(rng, mon):
    bad = rng.choice([0, -1, -5, 0.5])
    cls = rng.choice([BitStringVectorFlipMutation, SubtreeCrossover, SubtreeMutation, FloatVectorGaussNPointMutation, ERCMutation,
                      IntVectorNPointMutation, FloatVectorUniformNPointMutation])
    import inspect
    if "attempts" not in inspect.signature(cls.__init__).parameters:
        cls = SubtreeCrossover
    pr = rng.choice([None, 0, 0.0, 0.5, 1.0])
    kw = {} if pr is None else {"probability": pr}
    rejected(mon, lambda: cls(attempts=bad, **kw), "fewer than one attempt", operator=cls.__name__, attempts=bad, probability=pr)
    good = rng.choice([1, 2, 5, 100])
    accepted(mon, lambda: cls(attempts=good, **kw), "attempts", operator=cls.__name__, attempts=good)
    return (cls.__name__, bad, pr)


def k_subpops(rng, mon):
    k = rng.choice([2, 2, 3])
    G = rng.choice([0, 1, 2])
    rejected(mon, lambda: run1([subpop() for _ in range(k)], max_generation=G), "several subpopulations with the simple evaluator", subpopulations=k)
    accepted(mon, lambda: run1([subpop()], max_generation=G), "one subpopulation")

    def direct(k, method):
        sps = [subpop() for _ in range(k)]
        for sp in sps:
            sp.individuals = creator().create_individuals(4, True)
        ev = SimplePopulationEvaluator(executor_method=method)
        with ThreadPoolExecutor(2) as ex:
            ev.set_executor(ex)
            return ev.act(Population(sps))
    m = rng.choice(["map", "submit"])
    rejected(mon, lambda: direct(k, m), "several subpopulations with the simple evaluator, directly", subpopulations=k)
    accepted(mon, lambda: direct(1, m), "one subpopulation")
    return (k, G, m)


def k_fps(rng, mon):
    """Negative scores with fitness proportionate selection."""
    hib = rng.random() < 0.5
    n = rng.choice([1, 2, 5, 12])
    inds = creator().create_individuals(n, hib)
    for i in inds:
        i.fitness.set_fitness(rng.choice([0.0, 1.0, rng.random() * 10]))
    src = list(inds)
    accepted(mon, lambda: FitnessProportionateSelection(higher_is_better=hib).select(src, []), "non-negative scores")
    bad = rng.choice([-1e-9, -0.5, -3.0, -1e9])
    rng.choice(inds).fitness.set_fitness(bad)
    dest = []
    rejected(mon, lambda: FitnessProportionateSelection(higher_is_better=hib).select(src, dest), "a negative score in proportionate selection",
             score=bad, individuals=n, hib=hib)
    mon.check(dest == [] and src == inds, "a rejected selection changed its arguments")
    return (hib, n, bad)


def k_fitness(rng, mon):
    rejected(mon, lambda: SimpleFitness(higher_is_better=None), "fitness without a direction")
    accepted(mon, lambda: SimpleFitness(higher_is_better=rng.random() < 0.5), "fitness")
    bad = rng.choice(["Sigmoid", "", None, "max", "arg_max", 2])
    rejected(mon, lambda: ClassificationEvaluator(clf_method=bad), "unknown classification method", method=bad)
    accepted(mon, lambda: ClassificationEvaluator(clf_method=rng.choice(["sigmoid", "argmax", "softmax"])), "classification method")
    m = rng.choice(["argmax", "softmax"])
    ev = ClassificationEvaluator(clf_method=m)
    ev.set_context((np.ones((3, 2)), np.array([0, 1, 0])))
    t = wl.Tree(function_set=[uf.f_add], terminal_set=["x0", "x1"])
    t.tree = [FunctionNode(uf.f_add), wl.TerminalNode("x0"), wl.TerminalNode("x1")]
    rejected(mon, lambda: ev.classify_individual(t), "a program whose root is not the classification function", method=m)
    v = rng.choice([None, 3.5, 0.0])
    for cls in (SimpleFitness, GPFitness):
        f = cls(v, higher_is_better=True)
        ind = FloatVector(f, 1, (0.0, 1.0), vector=[0.5]) if cls is SimpleFitness else t
        ind.fitness = f
        if v is None:
            rejected(mon, ind.get_pure_fitness, "reading a fitness that is not evaluated")
            rejected(mon, ind.get_augmented_fitness, "reading an adjusted fitness that is not evaluated")
            f.set_fitness(2.0)
        accepted(mon, ind.get_pure_fitness, "reading a fitness")
        f.set_not_evaluated()
        rejected(mon, ind.get_pure_fitness, "reading a fitness that was invalidated")
        rejected(mon, ind.get_augmented_fitness, "reading an adjusted fitness that was invalidated")
    k = rng.choice([1, 2, 3])
    f = NSGA2Fitness(higher_is_better=rng.random() < 0.5)
    rejected(mon, f.get_pure_fitness, "reading objectives that are not evaluated")
    accepted(mon, lambda: f.set_fitness([1.0] * k), "setting objectives")
    rejected(mon, lambda: f.set_fitness([rng.choice([1.0, 1.0, 2.0])] * rng.choice([1, k, k, 4])), "setting objectives that are already set")
    mon.eq(list(f.get_pure_fitness()), [1.0] * k, "objectives after a rejected change")
    f.set_not_evaluated()
    accepted(mon, lambda: f.set_fitness([3.0] * k), "setting objectives again after they were invalidated")
    return (str(bad), m, str(v), k)


def k_compare(rng, mon):
    """Fitness values that cannot be compared."""
    def mo(m, evaluated=True):
        f = NSGA2Fitness([rng.uniform(-1, 1) for _ in range(m)] if evaluated else None, higher_is_better=rng.random() < 0.5)
        f.front_rank = 1
        return FloatVector(f, 1, (0.0, 1.0), vector=[0.5])

    def so(evaluated=True):
        cls = rng.choice([SimpleFitness, SimpleFitness, GPFitness])
        return FloatVector(cls(rng.uniform(-1, 1) if evaluated else None, higher_is_better=True), 1, (0.0, 1.0), vector=[0.5])

    m = rng.choice([1, 2, 3, 4])
    k = rng.choice([x for x in (1, 2, 3, 4, 5) if x != m])
    a, b, c = mo(m), mo(m), mo(k)
    dom = lambda x, y: x.fitness.dominate(x, y.fitness, y)
    accepted(mon, lambda: (dom(a, b), a.better_than(b)), "objectives of the same number", m=m)
    rejected(mon, lambda: dom(a, c), "dominance between different numbers of objectives", m=m, other=k)
    rejected(mon, lambda: a.better_than(c), "comparison of different numbers of objectives", m=m, other=k)
    u, s, us = mo(m, False), so(), so(False)
    rejected(mon, lambda: dom(a, u), "dominance over an individual that is not evaluated")
    rejected(mon, lambda: dom(u, a), "dominance by an individual that is not evaluated")
    rejected(mon, lambda: dom(a, s), "dominance over a single-objective individual")
    rejected(mon, lambda: s.better_than(a), "comparison with a multi-objective individual")
    rejected(mon, lambda: s.better_than(us), "comparison with an individual that is not evaluated")
    rejected(mon, lambda: us.better_than(s), "comparison of an individual that is not evaluated")
    accepted(mon, lambda: s.better_than(so()), "comparison of evaluated individuals")
    return (m, k)


KINDS = [k_population, k_statistics, k_creators, k_operators, k_breeder, k_evaluator, k_pcr, k_executor, k_method, k_bounds, k_types, k_arity, k_group,
         k_half, k_tournament, k_fps, k_payload, k_attempts, k_subpops, k_fitness, k_compare]


def make(k):
    def scen(rng, mon):
        key = k(rng, mon)
        mon.sig(k.__name__, key)
        mon.show(kind=k.__name__[2:], invalid=key)
    scen.__name__ = k.__name__[2:]
    return scen


BIG = {"pcr": 3, "bounds": 3, "types": 5, "arity": 2, "half": 2, "payload": 2}
SCENARIOS = [Scenario(make(k), 800 * BIG.get(k.__name__[2:], 1), 12000 * BIG.get(k.__name__[2:], 1),
                      needs=("rejections", "acceptances")) for k in KINDS]
