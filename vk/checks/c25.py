"""C25: independence of algorithm instances."""
import copy
import gc
import random as _random

import numpy as np

from eckity.algorithms import SimpleEvolution
from eckity.breeders import SimpleBreeder
from eckity.creators import FullCreator, GABitStringVectorCreator, GAFloatVectorCreator, GAIntVectorCreator, GrowCreator
from eckity.event_based_operator import Operator
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector
from eckity.genetic_encodings.gp import Tree
from eckity.genetic_operators import (BitStringVectorFlipMutation, ERCMutation, SubtreeCrossover, SubtreeMutation,
                                      TournamentSelection, VectorKPointsCrossover)
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.evaluators import SimplePopulationEvaluator
from eckity.multi_objective_evolution import NSGA2Breeder, NSGA2Evolution, NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.random import RNG
from eckity.population import Population
from eckity.statistics import BestAverageWorstStatistics, Statistics
from eckity.subpopulation import Subpopulation
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
from eckity.termination_checkers.best_fitness_stagnation_termination_checker import BestFitnessStagnationTerminationChecker

from vk import mo, wl
from vk.checks import c24
from vk.core import Scenario

PROPERTY = "C25"
LEVEL = "exploration"
RULE = ("A case draws 2-4 algorithms (single- and multi-objective, all encodings, default and explicit components, shared "
        "configuration containers), records the history of each one running alone, and then replays them in one process "
        "under a random schedule of construction, registration, running, runs nested in the init and generation callbacks of "
        "other runs, copying and garbage; the per-generation history and the delivered events of every instance are compared "
        "with its isolated ones, the user's containers with copies, and the components reachable from two instances by "
        "identity. Reuse cases hand a random subset of the components from one algorithm to the next and compare with new ones. Estimator cases do the same with scikit-learn estimators that are fitted (also nested), graded and asked in any "
        "order. Non-trivial: at least two algorithms ran; distinct by configurations and schedule.")
ASSUMPTIONS = ["runs nested in another run start from that run's init or after_generation callback, where the library reseeds "
               "its generators next; the generators of Python and numpy are shared by design between runs that overlap elsewhere"]


def draw(rng):
    if rng.random() < 0.3:
        c = mo.draw_mo(rng, pops=[2, 4, 6, 8], max_gen=rng.choice([1, 2, 3]))
        return ("mo", c)
    c = wl.draw_cfg(rng, pops=[2, 4, 6, 8, 10], max_gen=rng.choice([0, 1, 2, 3, 4]))
    return ("so", c)


def build(kc, **kw):
    k, c = kc
    if k == "mo":
        return mo.build_mo(c, **kw)
    return wl.build(c, **kw)[:2]


def start(algo, sp, on_event=None):
    out = []

    def rec(s, d):
        out.append((s.generation_num, wl.snap_pop(sp), wl.genome(s.best_of_run_)))
        if on_event:
            on_event()

    algo.register("init", rec)
    algo.register("after_generation", rec)
    return out


def finish(algo, sp, out):
    out.append((algo.final_generation_, wl.snap_pop(sp), wl.genome(algo.best_of_run_)))


def alone(kc):
    algo, sp = build(kc)
    out = start(algo, sp)
    algo.evolve()
    finish(algo, sp, out)
    return out


def schedules(rng, mon):
    n = rng.choice([2, 2, 3, 4])
    cfgs = [draw(rng) for _ in range(n)]
    if rng.random() < 0.4:
        cfgs[1] = copy.deepcopy(cfgs[0])     # twins
        if rng.random() < 0.5:
            cfgs[1][1]["seed"] = (cfgs[0][1]["seed"] + 1) % 2 ** 32
    want = [alone(k) for k in cfgs]
    inst = [None] * n
    hist = [None] * n
    state = ["new"] * n
    trace = []
    live = []

    def construct(i):
        inst[i] = build(cfgs[i])
        state[i] = "built"
        trace.append(("construct", i))

    def run(i):
        algo, sp = inst[i]
        state[i] = "running"
        trace.append(("start", i))
        live.append(i)
        hist[i] = start(algo, sp, lambda: between(i))
        algo.evolve()
        finish(algo, sp, hist[i])
        live.pop()
        state[i] = "done"
        trace.append(("end", i))

    def between(i):
        trace.append(("event", i))
        if live[-1] != i:
            mon.fail("an instance delivered an event while another one was running", instance=i, running=live[-1])
        if rng.random() < 0.5 and len(live) < 3:
            step()

    def step():
        new = [i for i in range(n) if state[i] == "new"]
        ready = [i for i in range(n) if state[i] == "built"]
        k = rng.random()
        if k < 0.12:
            a, s = build(draw(rng))                          # constructed and dropped
            trace.append("decoy")
            if rng.random() < 0.5:
                a.register("after_generation", lambda s, d: mon.fail("an instance that never ran delivered an event"))
            if rng.random() < 0.3:
                del a, s
                gc.collect()
        elif k < 0.2 and any(state[i] in ("built", "done") for i in range(n)):
            i = rng.choice([i for i in range(n) if state[i] in ("built", "done")])
            sp = inst[i][1]
            copy.deepcopy(sp.creators)
            trace.append(("copy", i))
        elif k < 0.27:
            # unrelated use of the library
            wl.CREATORS["int"](length=3).create_individuals(4, True)
            trace.append("create")
        elif new and (k < 0.6 or not ready):
            construct(rng.choice(new))
        elif ready:
            i = rng.choice(ready)
            if live:
                mon.event("nested_runs")
            run(i)

    while any(s != "done" for s in state):
        step()
    for i in range(n):
        mon.eq(len(hist[i]), len(want[i]), "number of generation events differs from the isolated run", instance=i, cfg=cfgs[i],
               schedule=trace[:40])
        for a, b in zip(hist[i], want[i]):
            if a != b:
                d = [j for j, (x, y) in enumerate(zip(a[1], b[1])) if x != y]
                mon.fail("the history differs from the isolated run", instance=i, generation=(a[0], b[0]), rows=d[:5],
                         got=[a[1][j] for j in d[:2]], want=[b[1][j] for j in d[:2]], best=(a[2] == b[2]), cfg=cfgs[i],
                         schedule=trace[:40])
        mon.event("histories_compared")
        mon.event("generations_compared", len(want[i]))
    mon.sig([wl.cfg_sig(c) for _, c in cfgs], trace)
    mon.show(algorithms=[k for k, _ in cfgs], schedule=trace[:25])


# ------------------------------------------------------------------ default components
def operators_of(obj, depth=0, seen=None):
    """All event publishers reachable from an algorithm through attributes and containers."""
    seen = seen if seen is not None else {}
    if id(obj) in seen or depth > 6:
        return seen
    if isinstance(obj, (list, tuple)):
        for x in obj:
            operators_of(x, depth + 1, seen)
    elif isinstance(obj, (Operator, Population, Subpopulation)):
        if isinstance(obj, Operator):
            seen[id(obj)] = obj
        for x in list(vars(obj).values()):
            operators_of(x, depth + 1, seen)
    return seen


def small(rng, kind, hib=None):
    """An algorithm that leaves as much as possible to the defaults. Returns (algorithm, subpopulation)."""
    if kind == "mo":
        c = mo.draw_mo(rng, pops=[4, 6], max_gen=rng.choice([1, 2]))
        c["default"] = True
        c["warm"] = None
        return mo.build_mo(c)
    enc = rng.choice(["bit", "int", "float", "gp"])
    hib = rng.random() < 0.5
    if enc == "gp":
        s = wl.untyped_sets(rng)
        cr = rng.choice([FullCreator, GrowCreator])(init_depth=(1, 2), function_set=s["funcs"], terminal_set=s["terms"])
        ops = [SubtreeCrossover(), SubtreeMutation(), ERCMutation()]
    else:
        cr = {"bit": GABitStringVectorCreator, "int": GAIntVectorCreator, "float": GAFloatVectorCreator}[enc](length=4)
        ops = [VectorKPointsCrossover()]
    sp = Subpopulation(creators=cr, population_size=rng.choice([4, 10]), evaluator=wl.PureEval("hash"), higher_is_better=hib,
                       operators_sequence=ops)
    return SimpleEvolution(sp, max_generation=rng.choice([1, 2]), random_seed=rng.randrange(2 ** 32)), sp


def defaults(rng, mon):
    """Instances that rely on default components do not share them."""
    n = rng.choice([2, 3])
    algos = [small(rng, rng.choice(["so", "so", "mo"])) for _ in range(n)]
    ops = [operators_of(a) for a, _ in algos]
    running = [None]
    heard = [0] * n

    def make(i, op):
        def cb(sender, data):
            heard[i] += 1
            if running[0] != i:
                mon.fail("a callback registered on one instance's component was called by another instance's run",
                         registered=i, running=running[0], sender=type(sender).__name__)
            mon.check(sender is op, "event delivered by a component it was not registered on")
        return cb

    for i in range(n):
        for op in ops[i].values():
            for ev in list(op.events):
                if ev != "after_creation":
                    op.register(ev, make(i, op))
        for j in range(i):
            both = [op for k, op in ops[i].items() if k in ops[j]]
            mon.check(not both, "two instances share a component that publishes events", component=[type(o).__name__ for o in both])
            mon.check(algos[i][0].statistics is not algos[j][0].statistics, "two instances share their list of statistics")
            mon.check(algos[i][0].executor is not algos[j][0].executor, "two instances share their executor")
    order = rng.sample(range(n), n)
    for i in order:
        # changing one instance's containers and settings
        running[0] = i
        algos[i][0].evolve()
        running[0] = None
        mon.check(heard[i] > 0, "no callback of the running instance was called")
        mon.event("callbacks", heard[i])
        for j in range(n):
            if j != i and j not in order[:order.index(i)]:
                a, sp = algos[j]
                mon.check(sp.individuals is None and a.best_of_run_ is None and a.generation_num == 0
                          and not a.final_generation_, "a run changed the state of an instance that has not run",
                          individuals=sp.individuals is not None, best=a.best_of_run_)
        before = {j: (len(algos[j][0].statistics), {k: len(v) for k, v in algos[j][0].events.items()}) for j in range(n) if j != i}
        algos[i][0].statistics.append(BestAverageWorstStatistics())
        algos[i][0].register("init", lambda s, d: None)
        for j, b in before.items():
            now = (len(algos[j][0].statistics), {k: len(v) for k, v in algos[j][0].events.items()})
            mon.eq(now, b, "adding statistics or callbacks to one instance changed another")
    mon.event("instances", n)
    mon.sig([type(a).__name__ for a, _ in algos], [wl.snap_pop(sp) for _, sp in algos])
    mon.show(algorithms=[type(a).__name__ for a, _ in algos], order=order, callbacks=heard)


def individuals(rng, mon):
    """Individuals and creators that rely on defaults do not share state."""
    sets = wl.gp_sets(rng)
    if rng.random() < 0.5:
        mk = lambda: Tree(function_set=list(sets["funcs"]), terminal_set=copy.copy(sets["terms"]), root_type=sets["root"])
        edit = lambda t: t.tree.extend(wl.random_nodes(rng, sets, sets["root"], 2))
    else:
        cls = rng.choice([BitStringVector, IntVector, FloatVector])
        L = rng.choice([1, 3])
        from eckity.fitness import SimpleFitness
        mk = lambda: cls(fitness=SimpleFitness(higher_is_better=True), length=L)
        edit = lambda v: v.set_vector([v.get_random_number_in_bounds(0) for _ in range(L)])
    a, b = mk(), mk()
    ida, idb = wl.state_ids(a), wl.state_ids(b)
    sh = [v for k, v in ida.items() if k in idb]
    mon.check(not sh, "two individuals built with default arguments share state", shared=sh)
    before = (wl.genome(b), list(b.selected_by), list(b.applied_operators), b.id)
    edit(a)
    a.selected_by.append("x")
    a.applied_operators.append("y")
    a.fitness.set_fitness(3.25)
    mon.eq((wl.genome(b), list(b.selected_by), list(b.applied_operators), b.id), before, "editing one individual changed another")
    mon.check(not b.fitness.is_fitness_evaluated(), "evaluating one individual evaluated another")
    c = mk()
    mon.eq(len(wl.genome(c)), len(before[0]), "a new individual starts with the genome of an earlier one")
    mon.check(not c.fitness.is_fitness_evaluated() and not c.selected_by and not c.applied_operators,
              "a new individual starts with the state of an earlier one")
    mon.check(len({a.id, b.id, c.id}) == 3, "two individuals have the same id")
    mon.event("pairs")
    mon.sig(type(a).__name__, wl.genome(a))
    mon.show(kind=type(a).__name__, genome=wl.genome(a)[:4])


# ------------------------------------------------------------------ the user's containers
class SilentB(Statistics):
    def __init__(self):
        super().__init__("{}")

    def write_statistics(self, sender, data_dict):
        pass


class SilentA(SilentB):
    pass


def containers(rng, mon):
    """The containers of the configuration are not modified and may be shared by several algorithms."""
    gp = rng.random() < 0.6
    hib = rng.random() < 0.5
    user = {}
    if gp:
        sets = wl.gp_sets(rng)
        user["funcs"] = list(sets["funcs"])
        user["terms"] = copy.copy(sets["terms"])
        user["depth"] = rng.choice([(1, 2), [1, 2], (1, 3)])
        user["erc"] = sets["erc"]
        user["muts"] = [1, 2]
    else:
        L = rng.choice([2, 5])
        enc = rng.choice(["bit", "int", "float"])
        user["bounds"] = wl.vector_bounds(rng, enc, L)
    user["events"] = ["mine", "other"]
    user["event_names"] = rng.choice([[], ["extra"], ["a", "b"]])
    user["pcr"] = rng.choice([[0.5, 0.5], [1, 0], [0.25, 0.75]])
    seeds = [rng.randrange(2 ** 32) for _ in range(2)]
    gens = rng.choice([1, 2, 3])
    pop = rng.choice([4, 8, 10])
    kinds = [lambda: ThresholdFromTargetTerminationChecker(optimal=10 ** 9, threshold=0.0),
             lambda: BestFitnessStagnationTerminationChecker(stagnation_generations_to_terminate=1000)]
    # stateful components are fresh for every algorithm; their lists are the user's
    term_kinds = rng.sample(kinds + kinds, rng.choice([1, 2, 3, 4]))
    stat_kinds = [rng.choice([SilentA, SilentB])
                  for _ in range(rng.choice([0, 1, 2, 4]))]
    single_creator = rng.random() < 0.2
    if single_creator:
        user["pcr"] = None
    elit = rng.choice([0.0, 0.25, 0.5])
    more_subs = rng.choice([0, 0, 1, 2, 3])
    opseed = rng.getrandbits(32)
    ev = rng.random() < 0.5

    def make(u, seed):
        r2, rng2 = _random.Random(opseed), _random.Random(opseed + 1)
        e = (lambda: u["events"]) if ev else (lambda: None)
        if gp:
            kw = dict(function_set=u["funcs"], terminal_set=u["terms"], init_depth=u["depth"], erc_range=u["erc"], root_type=sets["root"])
            creators = [GrowCreator(events=e(), **kw), FullCreator(events=e(), **kw)]
            ops = [SubtreeCrossover(probability=0.9, events=e()), SubtreeMutation(probability=0.5, init_depth=u["muts"], events=e()),
                   ERCMutation(probability=0.5, events=e())]
        else:
            cls = wl.CREATORS[enc]
            creators = [cls(length=L, bounds=u["bounds"], events=e()), cls(length=L, bounds=u["bounds"])]
            ops = [f() for _, f in wl.vector_ops(r2, enc, L)]
        if rng2.random() < 0.5:
            creators.reverse()
        if single_creator:
            creators = creators[:1]
        rng2.shuffle(ops)
        u["creators"], u["ops"] = creators, ops
        u["stats"], u["terms_list"] = [f() for f in stat_kinds], [f() for f in term_kinds]
        u["sel"] = [(TournamentSelection(tournament_size=2, higher_is_better=hib), 1)]
        given = {k: (u[k], list(u[k])) for k in ("creators", "ops", "sel", "stats", "terms_list")}
        u["subs"] = [Subpopulation(creators=creators, pcr=u["pcr"], population_size=pop, evaluator=wl.PureEval("hash"), higher_is_better=hib,
                                   elitism_rate=elit, operators_sequence=ops, selection_methods=u["sel"])]
        if more_subs:            # constructed only: the library's breeders handle one subpopulation
            several = [Subpopulation(creators=creators, pcr=u["pcr"], population_size=pop, evaluator=wl.PureEval("hash"),
                                     higher_is_better=hib, elitism_rate=elit, operators_sequence=ops, selection_methods=u["sel"])
                       for _ in range(more_subs)]
            was = list(several)
            b = SimpleEvolution(several, max_generation=gens, random_seed=seed)
            mon.check(len(several) == len(was) and all(x is y for x, y in zip(several, was)),
                      "constructing modified the user's list of subpopulations")
            mon.check(len(b.population.sub_populations) == len(was) and
                      all(x is y for x, y in zip(b.population.sub_populations, was)), "the algorithm holds other subpopulations")
        given["subs"] = (u["subs"], list(u["subs"]))
        a = SimpleEvolution(u["subs"], statistics=u["stats"], termination_checker=u["terms_list"], event_names=u["event_names"],
                            max_generation=gens, random_seed=seed)
        for k, (now, was) in given.items():
            mon.check(len(now) == len(was) and all(x is y for x, y in zip(now, was)), f"constructing modified the user's list '{k}'",
                      before=was, after=now)
        mon.event("containers_compared", len(given))
        return a, u["subs"][0]

    def shallow(u):
        return {k: (type(v), list(v.items()) if isinstance(v, dict) else list(v) if isinstance(v, (list, tuple, set)) else v)
                for k, v in u.items()}

    def same(x, y):
        return x.keys() == y.keys() and all(
            x[k][0] is y[k][0] and (x[k][1] == y[k][1] if not isinstance(x[k][1], list) else
                                    len(x[k][1]) == len(y[k][1]) and all(p is q or (type(p) is type(q) and p == q) for p, q in zip(x[k][1], y[k][1])))
            for k in x)

    fresh = lambda: {k: copy.copy(v) for k, v in user.items()}
    want = []
    for s in seeds:
        a, sp = make(fresh(), s)
        want.append(wl.history(a, sp))
    u = fresh()
    for s, w in zip(seeds, want):
        base = shallow(u)
        a, sp = make(u, s)
        after = shallow(u)
        for k in base:
            if k not in ("creators", "ops", "sel", "subs", "stats", "terms_list"):
                mon.check(same({k: base[k]}, {k: after[k]}), f"constructing modified the user's '{k}'", before=base[k][1], after=after[k][1])
        got = wl.history(a, sp)
        end = shallow(u)
        for k in after:
            mon.check(same({k: after[k]}, {k: end[k]}), f"running modified the user's '{k}'", before=after[k][1], after=end[k][1])
        mon.event("containers_compared", len(end))
        mon.check(got == w, "an algorithm that uses containers another one used before runs differently")
        mon.event("histories_compared")
    mon.sig(gp, seeds, opseed, pop, gens)
    mon.show(encoding="gp" if gp else enc, containers=list(u), generations=gens)


# ------------------------------------------------------------------ the same components, one algorithm after the other
def reused(rng, mon):
    """Components that several algorithms use one after the other behave as new ones."""
    domo = rng.random() < 0.3
    c = draw_kind(rng, domo)
    n = rng.choice([2, 2, 3])
    jobs = []
    for _ in range(n):
        j = dict(c, seed=rng.randrange(2 ** 32), gens=rng.choice([0, 1, 2, 3]), pop=rng.choice([2, 4, 6, 8, 12]), workers=rng.choice([1, 2]),
                 exec="thread")
        if domo:
            j["kind"], j["m"] = rng.choice(mo.KINDS), rng.choice([1, 2, 3])
            j["hib"] = rng.random() < 0.5
        elif c["sel"][0] != "fp":
            j["land"] = rng.choice(["sum", "hash", "const", c["land"]])
        if not domo and c["sel"][0] != "fp":
            j["pop"] = max(j["pop"], c["sel"][1])
        if not domo and c["enc"] in ("gp", "gpt") and c["creator"] == "half":
            j["pop"] = c["pop"]
        j["pop"] += j["pop"] % 2
        jobs.append(j)
    keep = [k for k in ("creator", "ops", "sel", "popeval", "breeder", "rng", "sorting") if rng.random() < 0.7]

    def parts():
        if domo:
            r2 = _random.Random(c["opseed"])
            bounds = wl.vector_bounds(r2, c["enc"], c["length"])
            ops = [f() for _, f in wl.vector_ops(r2, c["enc"], c["length"])]
            return {"creator": GAVectorCreator(length=c["length"], bounds=bounds, fitness_type=NSGA2Fitness, vector_type=mo.VT[c["enc"]]),
                    "ops": ops, "sel": TournamentSelection(3, True), "popeval": SimplePopulationEvaluator(c["method"]),
                    "breeder": NSGA2Breeder(), "rng": RNG(), "sorting": NSGA2FrontSorting()}
        creator, ops, _ = wl.build_parts(c)
        return {"creator": creator, "ops": ops, "sel": wl.selection(c), "popeval": SimplePopulationEvaluator(c["method"]),
                "breeder": SimpleBreeder(), "rng": RNG()}

    def run(j, p):
        ev = mo.MOEval(j["kind"], j["m"]) if domo else wl.PureEval(j["land"])
        sp = Subpopulation(creators=p["creator"], population_size=j["pop"], evaluator=ev, higher_is_better=j["hib"],
                           elitism_rate=0.0 if domo else j["elit"], operators_sequence=p["ops"], selection_methods=[(p["sel"], 1)])
        kw = dict(population_evaluator=p["popeval"], breeder=p["breeder"], random_generator=p["rng"], max_generation=j["gens"],
                  random_seed=j["seed"], max_workers=j["workers"])
        if domo:
            a = NSGA2Evolution(sp, NSGA2FrontSorting=p["sorting"], **kw)
        else:
            a = SimpleEvolution(sp, **kw)
        out = start(a, sp)
        a.evolve()
        finish(a, sp, out)
        return out

    want = [run(j, parts()) for j in jobs]
    shared = parts()
    for k, j in enumerate(jobs):
        p = parts()
        p.update({x: shared[x] for x in keep if x in shared})
        got = run(j, p)
        mon.check(got == want[k], "an algorithm with components that another one used before runs differently", algorithm=k, reused=keep,
                  job=j, generation=next((g for g, (a, b) in enumerate(zip(got, want[k])) if a != b), None))
        if k:
            mon.event("reused_histories")
    mon.sig(domo, [(wl.cfg_sig(j)) for j in jobs], keep)
    mon.show(multi_objective=domo, reused=keep, algorithms=n)


def draw_kind(rng, domo):
    if domo:
        return mo.draw_mo(rng, pops=[4, 6, 8])
    return wl.draw_cfg(rng, pops=[4, 8, 12], max_gen=2, warm=0)


# ------------------------------------------------------------------ estimators
def estimators(rng, mon):
    """Estimators that are built, fitted and asked in any order answer as each one alone."""
    n = rng.choice([2, 2, 3])
    specs = []
    for _ in range(n):
        kind = rng.choice(["reg", "reg", "sigmoid", "sigmoid", "argmax"])
        d, k, rows = rng.choice([1, 2, 3]), rng.choice([2, 3]), rng.choice([4, 9])
        X = c24.data(rng, rows, d)
        y = np.array([rng.uniform(-2, 2) for _ in X]) if kind == "reg" else np.array([j % (2 if kind == "argmax" else k) for j in range(rows)])
        specs.append((kind, d, k, X, y, rng.randrange(2 ** 32), rng.choice([c24.my_metric, c24.my_order_metric]) if kind == "reg" else
                      c24.accuracy_score))
    if rng.random() < 0.5:                                  # the same programs on other data
        specs[1] = specs[0][:3] + (specs[0][3] * 0.5 + 1, specs[0][4][::-1].copy()) + specs[0][5:]
    Q = [c24.data(rng, 5, sp[1]) for sp in specs]
    V = [c24.draw_tree(rng, sp[1], sp[0]) for sp in specs]

    def make(i):
        kind, d, k, X, y, seed, metric = specs[i]
        est, algo = c24.estimator(_random.Random(seed), d, kind, k, metric)
        sp = algo.population.sub_populations[0]
        return est, algo, sp

    def fit(i, e, between=None):
        est, algo, sp = e
        out = start(algo, sp, between)
        est.fit(specs[i][3], specs[i][4])
        finish(algo, sp, out)
        return out

    def grade(i, e):
        # the evaluator of a fitted estimator that was not asked to predict yet holds the training data
        return e[2].evaluator.evaluate_individual(V[i])

    with np.errstate(all="ignore"):
        want = []
        for i in range(n):
            e = make(i)
            h = fit(i, e)
            want.append((h, grade(i, e), np.asarray(e[0].predict(Q[i]))))
        inst, hist, state, trace, live, asked = [None] * n, [None] * n, ["new"] * n, [], [], [0] * n

        def step():
            i = rng.randrange(n)
            trace.append((state[i], i))
            if state[i] == "new":
                inst[i], state[i] = make(i), "built"
            elif state[i] == "built":
                state[i] = "fitting"
                live.append(i)
                if len(live) > 1:
                    mon.event("nested_fits")
                hist[i] = fit(i, inst[i], lambda: rng.random() < 0.5 and len(live) < 3 and step())
                live.pop()
                state[i] = "fitted"
            elif state[i] == "fitted":
                if not asked[i] and rng.random() < 0.6:
                    g = grade(i, inst[i])
                    mon.check(wl.close(float(g), float(want[i][1]), 0), "a program's training fitness differs from the estimator alone",
                              got=g, want=want[i][1], schedule=trace)
                    mon.event("grades_compared")
                else:
                    asked[i] += 1
                    p = np.asarray(inst[i][0].predict(Q[i]))
                    mon.check(wl.same_value(p, want[i][2]), "an estimator predicts differently beside others", instance=i,
                              kind=specs[i][0], got=p, want=want[i][2], schedule=trace)
                    mon.event("predictions_compared")

        while any(s != "fitted" for s in state):
            step()
        for _ in range(3 * n):
            step()
    for i in range(n):
        mon.check(hist[i] == want[i][0], "the fitting history differs from the estimator alone", instance=i, kind=specs[i][0], schedule=trace)
        mon.event("histories_compared")
    mon.sig([(s[0], s[5]) for s in specs], trace)


SCENARIOS = [
    Scenario(schedules, 320, 9000, needs=("histories_compared", "nested_runs")),
    Scenario(defaults, 320, 8000, needs=("callbacks",)),
    Scenario(individuals, 800, 8000, needs=("pairs",)),
    Scenario(reused, 480, 9000, needs=("reused_histories",)),
    Scenario(estimators, 160, 3000, needs=("histories_compared", "grades_compared", "predictions_compared", "nested_fits")),
    Scenario(containers, 320, 8000, needs=("histories_compared", "containers_compared")),
]
