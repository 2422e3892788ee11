"""C07: termination."""
import math

from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.ga import IntVector
from eckity.multi_objective_evolution.crowding_termination_checker import CrowdingTerminationChecker
from eckity.population import Population
from eckity.subpopulation import Subpopulation
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker, TerminationChecker
from eckity.termination_checkers.best_fitness_stagnation_termination_checker import \
    BestFitnessStagnationTerminationChecker

from vk import mo, wl
from vk.core import Scenario

PROPERTY = "C07"
LEVEL = "exploration"
RULE = ("A case is a run with recording termination checkers (single or list, stopping at drawn generations, returning plain "
        "or numpy booleans) and drawn maximal generation, or a library checker fed a synthetic history, or a run with a "
        "library checker and a scripted evaluator. The monitor compares the number of generations bred, the calls and their "
        "arguments, and the reported final generation with a direct model of the stop rule. Non-trivial: a run observed or "
        "a checker answer compared; distinct by parameters.")
ASSUMPTIONS = ["stagnation histories avoid values that are close but not equal, except far below or above isclose's 1e-9",
               "checkers are fresh for each run (they may hold state)"]


class Rec(TerminationChecker):
    def __init__(self, stop_gens, ret=bool):
        super().__init__()
        self.stop = set(stop_gens)
        self.calls = []
        self.ret = ret

    def should_terminate(self, population, best_individual, gen_number):
        self.calls.append((population, best_individual, gen_number,
                           tuple(i.fitness.is_fitness_evaluated() for i in population.sub_populations[0].individuals),
                           tuple(id(i) for i in population.sub_populations[0].individuals)))
        return self.ret(gen_number in self.stop)


def run_model(G, checkers):
    """(generations performed, number of checks): the first generation after which some checker stops."""
    for g in range(0, G + 1):
        if any(g in c.stop for c in checkers):
            return g
    return G


def recording(rng, mon):
    import numpy as np
    domo = rng.random() < 0.3
    G = rng.choice([0, 1, 2, 3, 5, 8, 15, 40, 130])
    c = mo.draw_mo(rng, max_gen=G, pops=[2, 4, 6]) if domo else wl.draw_cfg(rng, max_gen=G, pops=[2, 4, 6])
    G = c["gens"]
    n = rng.choice([0, 1, 1, 2, 3])
    chk = []
    for _ in range(n):
        stops = rng.choice([[], [0], [G], [G + 1], [rng.randint(0, G + 1)], [rng.randint(1, G + 1), rng.randint(1, G + 1)],
                            [max(0, G - 1)], [1]])
        chk.append(Rec(stops, rng.choice([bool, np.bool_, int])))
    tc = None if n == 0 else chk[0] if n == 1 and rng.random() < 0.6 else list(chk)
    if domo:
        algo, sp = mo.build_mo(c, termination_checker=tc)
    else:
        algo, sp, _ = wl.build(c, termination_checker=tc)
    seen = []
    pops = []

    def on(s, d):
        seen.append(d["generation_num"])
        pops.append((algo.best_of_run_, tuple(id(i) for i in sp.individuals)))

    algo.register("init", lambda s, d: pops.append((algo.best_of_run_, tuple(id(i) for i in sp.individuals))))
    algo.register("after_generation", on)
    ret = algo.evolve()
    last = run_model(G, chk)
    # the initial population's stop publishes one after_generation for generation 0
    stopped0 = any(0 in k.stop for k in chk)
    want = [0] if stopped0 else list(range(1, last + 1))
    mon.eq(seen, want, "generations performed", max_generation=G, stops=[sorted(k.stop) for k in chk])
    mon.eq(algo.final_generation_, last, "reported final generation", max_generation=G,
           stops=[sorted(k.stop) for k in chk])
    mon.eq(algo.generation_num, last, "generation number after the run")
    for j, k in enumerate(chk):
        gens = [x[2] for x in k.calls]
        # once an earlier checker has said to stop, the later ones need not be asked any more
        short = any(last in q.stop for q in chk[:j])
        want = [list(range(0, last + 1))] + ([list(range(0, last))] if short else [])
        mon.check(gens in want, f"generations for which checker {j} was asked", got=gens, want=want, max_generation=G,
                  stops=[sorted(q.stop) for q in chk])
        for x in k.calls:
            mon.check(x[0] is algo.population, f"checker {j} was given another population")
            mon.check(all(x[3]), f"checker {j} saw unevaluated individuals in generation {x[2]}")
            b, ids = pops[x[2]]
            mon.check(x[1] is b, f"checker {j} was given another best individual in generation {x[2]}")
            mon.check(x[4] == ids, f"checker {j} saw another population in generation {x[2]}")
        mon.event("checker_calls", len(k.calls))
    mon.event("generations_performed", last)
    if last < G:
        mon.event("early_stops")
    mon.sig(G, [sorted(k.stop) for k in chk], domo, isinstance(tc, list), wl.cfg_sig(c))
    mon.show(max_generation=G, stops=[sorted(k.stop) for k in chk], performed=last, multi_objective=domo)


def ind_with(f, hib=False):
    i = IntVector(SimpleFitness(fitness=f, higher_is_better=hib), 1, (0, 9), vector=[0])
    return i


def tree_with(f, hib, bloat):
    from eckity.fitness.gp_fitness import GPFitness
    from eckity.genetic_encodings.gp.tree.tree_individual import Tree
    from eckity.genetic_encodings.gp import FunctionNode, TerminalNode
    from eckity.base.untyped_functions import f_add
    nodes = [TerminalNode("x")]
    for _ in range(3):
        nodes = [FunctionNode(f_add)] + nodes + [TerminalNode("y")]
    return Tree(fitness=GPFitness(fitness=f, higher_is_better=hib, bloat_weight=bloat), function_set=[f_add],
                terminal_set=["x", "y"], tree=nodes)


def threshold(rng, mon):
    opt = rng.choice([0.0, 0, 1, -3.5, 100, 1e9, rng.uniform(-10, 10)])
    thr = rng.choice([0.0, 0, 0.5, 1, 1e-9, 1e6, rng.random()])
    hib = rng.random() < 0.5
    t = ThresholdFromTargetTerminationChecker(optimal=opt, threshold=thr, higher_is_better=hib)
    for _ in range(8):
        f = rng.choice([opt, opt + thr, opt - thr, opt + 2 * thr, opt - 2 * thr, -opt, -opt + thr,
                        opt + rng.gauss(0, thr + 0.1), math.nextafter(opt + thr, math.inf),
                        math.nextafter(opt - thr, -math.inf), opt + 1, opt - 1, 0.0, -thr, math.inf, -math.inf])
        # (the size pressure of trees belongs to selection, the target is about the fitness the evaluator gave)
        ind = tree_with(f, hib, rng.choice([0.1, 1.0, 25.0])) if rng.random() < 0.3 else ind_with(f, hib)
        got = t.should_terminate(None, ind, rng.randrange(5))
        want = abs(f - opt) <= thr
        # the documented rule, with a margin where floating-point rounding could go either way
        tol = 4 * math.ulp(max(abs(opt), abs(thr), 0.0 if math.isinf(f) else abs(f), 1e-300))
        if not math.isinf(f) and abs(abs(f - opt) - thr) <= tol and not (f == opt or thr == 0):
            continue
        mon.check(bool(got) == want, "threshold checker", fitness=f, optimal=opt, threshold=thr, got=got)
        mon.event("threshold_answers")
        mon.event("threshold_true" if want else "threshold_false")
    mon.sig(opt, thr, hib)


def make_sp(vals, hib):
    from eckity.creators import GAIntVectorCreator
    sp = Subpopulation(evaluator=None, creators=GAIntVectorCreator(length=1), operators_sequence=[],
                       population_size=len(vals), higher_is_better=hib, individuals=[ind_with(v, hib) for v in vals])
    return sp


def stagnation(rng, mon):
    """Synthetic histories with one or several subpopulations."""
    N = wl.rare(rng, [1, 1, 2, 3, 5, 10], [12, 17, 25, 40, 101])
    nsp = rng.choice([1, 1, 1, 2, 3])
    hibs = [rng.random() < 0.5 for _ in range(nsp)]
    t = BestFitnessStagnationTerminationChecker(N)
    pool = rng.choice([[0.0, 1.0], [5.0, -5.0, 2.5], [1.0, 1.0000001, 2.0], [1e10, 1e10 + 1e5], [-3.0]])
    last, count = None, 0
    stay = rng.choice([0.3, 0.7, 0.95])
    cur = [rng.choice(pool) for _ in hibs]
    steady = N > 10 and rng.random() < 0.7        # long unchanged stretches, broken shortly before the limit
    for g in range(rng.choice([3, 6, 15, 40]) if N <= 10 else rng.choice([60, 150, 400])):
        if count >= N - 1 - rng.choice([0, 0, 1, 3]) and rng.random() < 0.8 if steady else rng.random() > stay:
            cur = [rng.choice(pool) for _ in hibs]
        sps = []
        for b, h in zip(cur, hibs):
            vals = [b] + [(b - rng.choice([0, 1, 7])) if h else (b + rng.choice([0, 1, 7])) for _ in range(3)]
            rng.shuffle(vals)
            sps.append(make_sp(vals, h))
        pop = Population(sps)
        if last is not None and cur == last:
            count += 1
            want = count >= N
        else:
            count, want = 0, False
        last = list(cur)
        got = t.should_terminate(pop, sps[0].individuals[0], g)
        mon.check(bool(got) == want, "stagnation checker", generation=g, best=cur, unchanged_for=count, needed=N, got=got)
        mon.event("stagnation_answers")
        mon.event("stagnation_true" if want else "stagnation_false")
        if want:
            break
    mon.sig(N, nsp, tuple(pool), g)


def drift(rng, mon):
    """A best fitness that improves every generation by less than isclose notices in one step is not stagnating."""
    N = rng.choice([10, 20, 40])
    hib = rng.random() < 0.5
    base = rng.choice([1.0, -1.0, 123.5, 1e6, -3e-4])
    step = abs(base) * rng.choice([5e-10, 7e-10, 9e-10]) * (1 if hib else -1)
    t = BestFitnessStagnationTerminationChecker(N)
    still = rng.choice([0, 0, N])              # generations without any change at the end
    n = rng.choice([N + 1, 2 * N, 3 * N])
    hist = [base + step * k for k in range(n)]
    hist += [hist[-1]] * (still * 2)
    stopped = None
    for g, b in enumerate(hist):
        sp = make_sp([b, b - 1 if hib else b + 1], hib)
        got = t.should_terminate(Population([sp]), sp.individuals[0], g)
        mon.event("drift_answers")
        if got:
            stopped = g
            break
    if stopped is None:
        mon.check(not still, "the best fitness has not changed at all for long enough", needed=N, unchanged=still * 2)
    else:
        mon.check(stopped >= N and math.isclose(hist[stopped], hist[stopped - N]),
                  "stopped although the best fitness has changed within the last generations", needed=N, generation=stopped,
                  now=hist[stopped], before=hist[max(0, stopped - N)])
        mon.event("drift_stops")
    mon.sig(N, hib, base, step, n, still)


def crowding(rng, mon):
    """Largest finite crowding below the threshold."""
    from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
    from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
    thr = rng.choice([0.01, 0.5, 1.0, 0.0, 2.0])
    t = CrowdingTerminationChecker(thr)
    sps, vals = [], []
    one = rng.random() < 0.5
    ranks = (lambda: 1) if one else (lambda: rng.choice([1, 1, 2, 3, 7]))
    for _ in range(rng.choice([1, 1, 2])):
        cr = [rng.choice([0.0, thr / 2, thr, thr * 2, math.inf, rng.random(), 0.001]) for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.2:
            cr = [rng.choice([0.0, thr / 2, math.inf]) for _ in cr]
        if all(v == math.inf for v in cr):
            cr[0] = thr / 2
        inds = []
        for v in cr:
            i = IntVector(NSGA2Fitness(fitness=[1.0, 2.0], higher_is_better=False), 1, (0, 9), vector=[0])
            i.fitness.front_rank, i.fitness.crowding = ranks(), v
            inds.append(i)
        sps.append(Subpopulation(evaluator=None, creators=GAVectorCreator(length=1, fitness_type=NSGA2Fitness),
                                 operators_sequence=[], population_size=len(cr), individuals=inds))
        vals += cr
    fin = [v for v in vals if v != math.inf]
    if not fin:
        return
    got = t.should_terminate(Population(sps), sps[0].individuals[0], rng.randrange(1, 9))
    if max(fin) == thr or max(fin) == 0:
        return          # 0: crowding not calculated yet
    mon.check(bool(got) == (max(fin) < thr), "crowding checker", crowding=vals, threshold=thr, got=got)
    mon.event("crowding_answers")
    mon.sig(thr, tuple(vals))


class Script(wl.PureEval):
    """Best fitness per generation follows a script (evaluation order = population order, one worker)."""

    def __init__(self, script, P, hib):
        super().__init__()
        self.script, self.P, self.hib, self.n = script, P, hib, 0

    def evaluate_individual(self, individual):
        g, k = divmod(self.n, self.P)
        self.n += 1
        b = self.script[g]
        return b if k == self.P - 1 else (b - 1 - k if self.hib else b + 1 + k)


def library_runs(rng, mon):
    """Runs with the library's checkers and a scripted best fitness."""
    P, G = rng.choice([2, 4]), rng.choice([1, 3, 6, 12])
    hib = rng.random() < 0.5
    c = wl.draw_cfg(rng, encs=("int",), pops=[P], max_gen=G)
    c.update(hib=hib, workers=1, sel=("t", 2))
    script = [float(rng.choice([3, 4, 5, 5, 5])) for _ in range(G + 1)]
    if rng.random() < 0.5:
        script.sort(reverse=not hib)
    N = rng.choice([1, 2, 3])
    target, thr = rng.choice([3.0, 5.0, 4.5, 9.0]), rng.choice([0.0, 0.5, 1.0])
    kinds = rng.choice([["s"], ["t"], ["s", "t"], ["t", "s"]])
    chk = [BestFitnessStagnationTerminationChecker(N) if k == "s" else
           ThresholdFromTargetTerminationChecker(optimal=target, threshold=thr, higher_is_better=hib) for k in kinds]
    last = G
    run_best, count = None, 0
    for g in range(G + 1):
        b = script[g]
        if run_best is None or wl.better(b, run_best, hib):
            run_best = b
        count = count + 1 if g and script[g] == script[g - 1] else 0
        if ("t" in kinds and abs(run_best - target) <= thr) or ("s" in kinds and count >= N):
            last = g
            break
    algo, sp, _ = wl.build(c, evaluator=Script(script, P, hib),
                           termination_checker=chk if len(chk) > 1 or rng.random() < 0.3 else chk[0])
    algo.evolve()
    mon.eq(algo.final_generation_, last, "generation in which the run ended", script=script, kinds=kinds, N=N, target=target,
           thr=thr, hib=hib)
    mon.eq(algo.generation_num, last, "generation number after the run")
    mon.event("library_checker_runs")
    if last < G:
        mon.event("library_checker_stops")
    mon.sig(tuple(script), kinds, N, target, thr, hib)


SCENARIOS = [
    Scenario(recording, 900, 16000, needs=("checker_calls", "early_stops")),
    Scenario(threshold, 800, 8000, needs=("threshold_true", "threshold_false")),
    Scenario(stagnation, 600, 8000, needs=("stagnation_true", "stagnation_false")),
    Scenario(drift, 60, 600, needs=("drift_answers", "drift_stops")),
    Scenario(crowding, 600, 6000, needs=("crowding_answers",)),
    Scenario(library_runs, 400, 6000, needs=("library_checker_runs", "library_checker_stops")),
]
