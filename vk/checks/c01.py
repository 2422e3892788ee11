"""C01: fitness integrity."""
import os
import tempfile
import shutil
import threading

from vk import wl
from vk.core import Scenario, Harness

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("A case is a whole evolutionary run drawn over encoding, population size, generations, operators, selection, "
        "elitism, executor, worker count and map/submit. The monitor re-computes every individual's score from its "
        "genome at every after_generation event and matches the evaluator's call log against the population by object "
        "and genome; for thread runs an order controller forces a drawn completion order of the evaluations. "
        "Non-trivial: at least one evaluation of at least two individuals; distinct by (configuration, completion orders).")
ASSUMPTIONS = ["evaluators are deterministic functions of the genome and of a state the user changes between generations",
               "process executor evaluations are counted through an append-only scratch file"]


def rng_of(c):
    import random
    return random.Random(c["opseed"])


def score_fn(c):
    """The user's scoring function; with a moving target it depends on the current phase of the user's evaluator."""
    f = wl.LANDSCAPES[c["land"]]
    if "phase" in c:
        p = c["phase"]
        return lambda g: p - f(g) if p % 2 else f(g) + p
    return f


class Moving(wl.CountingEval):
    """The user changes what is being optimised while the run goes on (co-evolved opponents, new data, annealing)."""

    def __init__(self, c):
        super().__init__(c["land"])
        self.c = c

    def evaluate_individual(self, individual):
        g = wl.genome(individual)
        s = score_fn(self.c)(g)
        with self._lock:
            self.log.append((individual, g, s))
        return s


class Frozen(wl.CountingEval):
    """An evaluator the user puts in the place of the previous one; scores by the phase it was made in."""

    def __init__(self, c, ev):
        super().__init__(c["land"])
        self.c, self.ev = dict(c), ev

    def evaluate_individual(self, individual):
        g = wl.genome(individual)
        s = score_fn(self.c)(g)
        with self.ev._lock:
            self.ev.log.append((individual, g, s))
        return s


def check_population(mon, sp, c, what):
    f = score_fn(c)
    for k, ind in enumerate(sp.individuals):
        mon.check(ind.fitness.is_fitness_evaluated(), f"{what}: individual {k} is not evaluated")
        got, want = ind.get_pure_fitness(), f(wl.genome(ind))
        mon.check(got == want,
                  f"{what}: individual {k} holds a fitness that is not its genome's score",
                  got=got, want=want, genome=wl.genome(ind), cfg=c)
        mon.event("fitness_values_checked")


def check_log(mon, log, inds, c, what):
    """Exactly one evaluation per individual of the population, of its current genome."""
    mon.eq(len(log), len(inds), f"{what}: number of evaluations differs from the population size", cfg=c)
    seen = {}
    for ind, g, s in log:
        seen.setdefault(id(ind), []).append((g, s))
    for k, ind in enumerate(inds):
        calls = seen.get(id(ind), [])
        mon.check(len(calls) == 1, f"{what}: individual {k} was evaluated {len(calls)} times", cfg=c)
        mon.check(calls[0][0] == wl.genome(ind), f"{what}: individual {k} changed after its evaluation",
                  at_eval=calls[0][0], now=wl.genome(ind))
        mon.check(ind.get_pure_fitness() == calls[0][1], f"{what}: individual {k} does not hold what its evaluation returned",
                  got=ind.get_pure_fitness(), want=calls[0][1], cfg=c)


class Ordered(wl.CountingEval):
    """Forces the evaluations of each batch to complete in a drawn order (all workers busy at once)."""

    def __init__(self, land, n, rng):
        super().__init__(land)
        self.n = n
        self.rng = rng
        self.cond = threading.Condition()
        self.arrived = 0
        self.order = None
        self.turn = 0
        self.gave_up = 0
        self.orders = []

    def evaluate_individual(self, individual):
        with self.cond:
            if self.order is None:
                self.order = list(range(self.n))
                self.rng.shuffle(self.order)
                self.orders.append(tuple(self.order))
                self.arrived = 0
                self.turn = 0
            me = self.arrived
            self.arrived += 1
            ok = self.cond.wait_for(
                lambda: self.turn < self.n and self.order[self.turn] == me, timeout=3)
            if not ok:
                self.gave_up += 1
            g = wl.genome(individual)
            s = wl.LANDSCAPES[self.land](g)
            self.log.append((individual, g, s))
            self.turn += 1
            if self.turn >= self.n:
                self.order = None
            self.cond.notify_all()
        return s


def run_monitored(mon, c, ev, with_log):
    algo, sp, sets = wl.build(c, evaluator=ev)
    gens = []

    def after_gen(sender, data):
        check_population(mon, sp, c, f"generation {len(gens)}")
        if with_log:
            check_log(mon, ev.drain(), sp.individuals, c, f"generation {data['generation_num']}")
        gens.append(1)
        if "phase" in c and len(gens) <= c["gens"]:
            c["phase"] += 1
            mon.event("target_moves")
            if c["swap"]:
                sp.evaluator = Frozen(c, ev)
                mon.event("evaluators_replaced")

    def on_init(sender, data):
        check_population(mon, sp, c, "initial population")
        if with_log:
            check_log(mon, ev.drain(), sp.individuals, c, "initial population")
        gens.append(0)
        if "phase" in c and c["gens"] and rng_of(c).random() < 0.7:
            c["phase"] += 1
            if c["swap"]:
                sp.evaluator = Frozen(c, ev)

    algo.register("init", on_init)
    algo.register("after_generation", after_gen)
    algo.evolve()
    mon.reraise()
    mon.eq(len(gens), c["gens"] + 1, "number of monitored generations", cfg=c)
    check_population(mon, sp, c, "after the run")
    if with_log:
        mon.check(not ev.drain(), "individuals were evaluated after the last generation")
    mon.event("generations_observed", len(gens))
    return algo, sp


def free_running(rng, mon):
    c = wl.draw_cfg(rng, big=0.06)
    if rng.random() < 0.1 and c["sel"][0] != "fp":
        c["land"] = rng.choice(["bigint", "frac"])
    c["delay"] = rng.choice([0.0, 0.0, 0.0005])
    if c["pop"] * c["gens"] > 100:
        c["delay"] = 0.0
    if rng.random() < 0.25 and c["sel"][0] != "fp":
        c["phase"], c["swap"] = rng.choice([0, 1, 5]), rng.random() < 0.4
        ev = Moving(c)
    else:
        ev = wl.CountingEval(c["land"], c["delay"], rng.random())
    run_monitored(mon, c, ev, True)
    mon.sig(wl.cfg_sig(c))
    mon.show(cfg=c)


def ordered(rng, mon):
    """All evaluations in flight at once; completion order forced."""
    c = wl.draw_cfg(rng, pops=[2, 4, 4, 6, 8, 12, 24], max_gen=rng.choice([0, 1, 2, 4]))
    c["workers"] = c["pop"]
    ev = Ordered(c["land"], c["pop"], rng)
    run_monitored(mon, c, ev, True)
    mon.event("forced_completion_orders", len(ev.orders))
    mon.event("out_of_submission_order", sum(1 for o in ev.orders if list(o) != sorted(o)))
    mon.event("order_controller_gave_up", ev.gave_up)
    mon.sig(wl.cfg_sig(c), tuple(ev.orders))
    mon.show(cfg=c, completion_orders=ev.orders[:3])


class FileEval(wl.PureEval):
    """Evaluator for worker processes: appends one line per evaluation to a scratch file."""

    def __init__(self, land, delay, salt, path):
        super().__init__(land, delay, salt)
        self.path = path

    def evaluate_individual(self, individual):
        s = super().evaluate_individual(individual)
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, f"{individual.id} {os.getpid()} {wl.h64(wl.genome(individual))}\n".encode())
        os.close(fd)
        return s


def processes(rng, mon):
    d = tempfile.mkdtemp(prefix="vkc01_")
    try:
        c = wl.draw_cfg(rng, executors=("process",), pops=[2, 4, 6, 8, 12, 12, 30, 70], max_gen=rng.choice([0, 1, 2, 3]))
        c["delay"] = rng.choice([0.0, 0.001])
        ev = FileEval(c["land"], c["delay"], rng.random(), os.path.join(d, "log"))
        algo, sp, sets = wl.build(c, evaluator=ev)
        pos = [0]
        pids = set()

        def obs(sender, data, what):
            check_population(mon, sp, c, what)
            lines = open(ev.path).read().splitlines()[pos[0]:]
            pos[0] += len(lines)
            want = sorted((ind.id, wl.h64(wl.genome(ind))) for ind in sp.individuals)
            got = sorted((int(l.split()[0]), int(l.split()[2])) for l in lines)
            pids.update(l.split()[1] for l in lines)
            mon.eq(got, want, f"{what}: evaluations made by the worker processes do not match the population")

        algo.register("init", lambda s, dd: obs(s, dd, "initial population"))
        algo.register("after_generation", lambda s, dd: obs(s, dd, f"generation {dd['generation_num']}"))
        algo.evolve()
        mon.event("worker_processes", len(pids))
        mon.event("process_evaluations", pos[0])
        mon.eq(pos[0], c["pop"] * (c["gens"] + 1), "total number of evaluations")
        mon.sig(wl.cfg_sig(c))
        mon.show(cfg=c, worker_pids=len(pids))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def direct(rng, mon):
    """The population evaluator used directly, on populations with stale, missing and cached fitness."""
    from concurrent.futures import ThreadPoolExecutor
    from eckity.evaluators import SimplePopulationEvaluator
    from eckity.fitness import SimpleFitness
    from eckity.population import Population
    from eckity.subpopulation import Subpopulation
    c = wl.draw_cfg(rng, encs=("bit", "int", "float"), max_gen=0)
    creator, ops, _ = wl.build_parts(c)
    inds = creator.create_individuals(c["pop"], c["hib"])
    for ind in inds:
        r = rng.random()
        if r < 0.3:
            ind.fitness.set_fitness(rng.choice([0.0, 1e9, -1e9, 7.0]))
        elif r < 0.5:
            ind.fitness = SimpleFitness(fitness=rng.random(), higher_is_better=c["hib"], cache=True)
    if rng.random() < 0.3:
        # ids made in another process, or copied with the individual, need not be unique
        for ind in inds:
            if rng.random() < 0.5:
                ind.id = inds[0].id
        mon.event("shared_ids")
    ev = wl.CountingEval(c["land"])
    sp = Subpopulation(creators=creator, population_size=c["pop"], evaluator=ev, higher_is_better=c["hib"],
                       operators_sequence=ops, individuals=list(inds))
    pe = SimplePopulationEvaluator(executor_method=c["method"])
    with ThreadPoolExecutor(c["workers"]) as ex:
        pe.set_executor(ex)
        for rep in range(rng.choice([1, 2, 3])):
            best = pe.act(Population([sp])) if rng.random() < 0.5 else pe.apply_operator(Population([sp]))
            mon.check(len(sp.individuals) == len(inds) and all(a is b for a, b in zip(sp.individuals, inds)),
                      "evaluation changed the population")
            check_population(mon, sp, c, f"evaluation {rep}")
            check_log(mon, ev.drain(), inds, c, f"evaluation {rep}")
            sc = [wl.LANDSCAPES[c["land"]](wl.genome(i)) for i in inds]
            mon.check(any(best is i for i in inds), "returned best is not in the population")
            mon.check(best.get_pure_fitness() == wl.best_of(sc, c["hib"]), "returned individual is not the best",
                      got=best.get_pure_fitness(), scores=sc, hib=c["hib"])
            # genomes change, fitness becomes stale, evaluated again
            for ind in inds:
                if rng.random() < 0.5:
                    i = rng.randrange(ind.size())
                    ind.set_cell_value(i, ind.get_random_number_in_bounds(i))
        # the individual evaluator's own entry point
        ind = rng.choice(inds)
        res = ev.evaluate(ind, inds)
        mon.check(res is ind and ind.get_pure_fitness() == wl.LANDSCAPES[c["land"]](wl.genome(ind)),
                  "evaluate() does not store the score of the individual")
    mon.sig(wl.cfg_sig(c))


SCENARIOS = [
    Scenario(free_running, 700, 12000, needs=("fitness_values_checked", "target_moves", "evaluators_replaced")),
    Scenario(ordered, 240, 4000, needs=("forced_completion_orders", "out_of_submission_order")),
    Scenario(processes, 64, 1200, needs=("process_evaluations",)),
    Scenario(direct, 300, 4000, needs=("shared_ids",)),
]
