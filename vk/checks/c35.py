"""C35: user-defined components of every kind are driven by the documented protocol."""
import random

from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.breeders import SimpleBreeder
from eckity.creators.creator import Creator
from eckity.evaluators import SimpleIndividualEvaluator, SimplePopulationEvaluator
from eckity.fitness import SimpleFitness
from eckity.fitness.fitness import Fitness
from eckity.genetic_operators import TournamentSelection
from eckity.genetic_operators.failable_operator import FailableOperator
from eckity.genetic_operators.genetic_operator import GeneticOperator
from eckity.genetic_operators.selections.selection_method import SelectionMethod
from eckity.individual import Individual
from eckity.random import RNG
from eckity.statistics.statistics import Statistics
from eckity.subpopulation import Subpopulation
from eckity.termination_checkers import TerminationChecker

from vk import wl
from vk.core import Scenario

PROPERTY = "C35"
LEVEL = "exploration"
RULE = ("A case builds an algorithm from user-defined components only: individuals with their own genome (nested lists and "
        "dictionaries), fitness of their own kind (lexicographic tuples, distance to a target, a preference given by a "
        "comparison method only), creators, operators of arity 1 to 4 (in place, returning new individuals, failing and "
        "retried), selections, evaluator, breeder, random generator, statistics and termination checkers, all of which "
        "append to one call trace. The trace (order, number and arguments of the calls) is compared with the protocol, the "
        "populations with an own replay of what the components returned. Non-trivial: a traced generation; distinct by trace.")
ASSUMPTIONS = ["evaluations of one generation may come in any order",
               "fitness kinds that are used with elitism define an order through their augmented fitness too"]


# ------------------------------------------------------------------ user-defined genome
class Plan(Individual):
    """A schedule: an order of jobs, their machines and notes."""

    def __init__(self, fitness, order, update_parents=False):
        super().__init__(fitness, update_parents)
        self.order = order
        self.machine = {j: [j % 3, {"prio": j}] for j in order}
        self.shown = 0

    def key(self):
        return tuple(self.order), tuple(sorted((j, m, d["prio"]) for j, (m, d) in self.machine.items()))

    def show(self):
        TRACE.add("show", self)

    def execute(self, *args, **kwargs):
        return ("executed", self.key(), args, tuple(sorted(kwargs.items())))


class Trace:
    def __init__(self):
        self.calls = []

    def add(self, *what):
        self.calls.append(what)

    def drain(self):
        out, self.calls = self.calls, []
        return out


TRACE = Trace()


# ------------------------------------------------------------------ user-defined fitness
class Lex(SimpleFitness):
    """Tuples, compared lexicographically."""


class Distance(SimpleFitness):
    """Closest to a target is best (an own adjustment of the score)."""

    def get_augmented_fitness(self, individual):
        d = abs(self.get_pure_fitness() - 40)
        return -d if self.higher_is_better else d


class Liking(Fitness):
    """Not a SimpleFitness at all: the preference is a comparison."""

    def __init__(self, higher_is_better=False):
        super().__init__(higher_is_better=higher_is_better)
        self.value = None

    def set_fitness(self, value):
        self.value = value
        self._is_evaluated = True

    def get_pure_fitness(self):
        if not self._is_evaluated:
            raise ValueError("not evaluated")
        return self.value

    def rank(self):
        return (self.value % 7, self.value) if self.higher_is_better else (-(self.value % 7), -self.value)

    def get_augmented_fitness(self, individual):
        r = self.rank()
        return r if self.higher_is_better else tuple(-x for x in r)

    def better_than(self, ind, other_fitness, other_ind):
        if not (self._is_evaluated and other_fitness._is_evaluated):
            raise ValueError("not evaluated")
        return self.rank() > other_fitness.rank()

    def equal_to(self, ind, other_fitness, other_ind):
        return self.rank() == other_fitness.rank()


class Contest(Liking):
    """Nothing but the comparison is defined."""

    def get_augmented_fitness(self, individual):
        return 0


def quality(kind, score, hib):
    """Larger is better."""
    if kind is Distance:
        return -abs(score - 40)
    if issubclass(kind, Liking):
        return (score % 7, score) if hib else (-(score % 7), -score)
    if kind is Lex:
        return score if hib else tuple(-x for x in score)
    return score if hib else -score


def score_of(kind, key):
    h = wl.h64(key)
    return (h % 3, h % 11) if kind is Lex else h % 97


class Judge(SimpleIndividualEvaluator):
    def __init__(self, kind):
        super().__init__()
        self.kind = kind

    def evaluate_individual(self, individual):
        k = individual.key()
        TRACE.add("evaluate", individual, k)
        return score_of(self.kind, k)


class Make(Creator):
    def __init__(self, rng, kind, up):
        super().__init__(fitness_type=kind)
        self.r, self.up = rng, up
        self.n_genes = rng.choice([1, 2, 4, 7])

    def create_individuals(self, n_individuals, higher_is_better):
        TRACE.add("create", n_individuals, higher_is_better)
        out = []
        for _ in range(n_individuals):
            order = list(range(self.n_genes))
            self.r.shuffle(order)
            out.append(Plan(self.fitness_type(higher_is_better=higher_is_better), order, self.up))
        self.created_individuals = out
        return out


class Shuffle(GeneticOperator):
    """In place or by new objects, any arity."""

    def __init__(self, name, rng, arity, probability, fresh):
        super().__init__(probability=probability, arity=arity)
        self.name, self.r, self.fresh = name, rng, fresh

    def apply(self, individuals):
        before = [(i.id, i.key()) for i in individuals]
        fit = [i.fitness.is_fitness_evaluated() for i in individuals]
        out = list(individuals)
        if self.fresh:
            out = [i.clone() for i in individuals]
            for o, i in zip(out, individuals):
                o.cloned_from, o.selected_by, o.applied_operators = i.cloned_from, list(i.selected_by), list(i.applied_operators)
        # the genes wander from one to the next
        keys = [o.order[self.r.randrange(len(o.order))] for o in out]
        for o, k in zip(out, keys[1:] + keys[:1]):
            a = o.order.index(k) if k in o.order else 0
            b = self.r.randrange(len(o.order))
            o.order[a], o.order[b] = o.order[b], o.order[a]
            o.machine[o.order[a]][1]["prio"] += 1 + k
        if self.arity > 1 and self.r.random() < 0.5:
            out.reverse()
        TRACE.add("apply", self.name, list(individuals), before, fit, list(out))
        return out


class Retry(FailableOperator):
    def __init__(self, name, rng, probability, attempts, fails):
        super().__init__(probability=probability, arity=1, attempts=attempts)
        self.name, self.r, self.fails = name, rng, fails
        self.fresh = rng.random() < 0.4

    def attempt_operator(self, payload, attempt_num):
        TRACE.add("attempt", self.name, list(payload), attempt_num)
        if self.r.random() < self.fails:
            return False, self.r.choice([None, payload, []])
        for i in payload:
            i.machine[i.order[0]][0] += 1
        return True, payload

    def on_fail(self, payload):
        out = payload
        if self.fresh:                     # the user's answer to a failure: something else takes the place
            out = [i.clone() for i in payload]
            for o, i in zip(out, payload):
                o.cloned_from, o.selected_by, o.applied_operators = i.cloned_from, list(i.selected_by), list(i.applied_operators)
                o.machine[o.order[0]][0] += 7
        TRACE.add("failed", self.name, list(payload), list(out))
        return out


class Pick(SelectionMethod):
    """Takes individuals by its own rule."""

    def __init__(self, rng, hib):
        super().__init__(higher_is_better=hib)
        self.r = rng

    def select(self, source_inds, dest_inds):
        TRACE.add("select", list(source_inds), list(dest_inds))
        while len(dest_inds) < len(source_inds):
            a, b = self.r.choice(source_inds), self.r.choice(source_inds)
            w = a if a.better_than(b) else b
            c = w.clone()
            c.selected_by.append("Pick")
            dest_inds.append(c)
        self.selected_individuals = dest_inds
        return dest_inds


class Stop(TerminationChecker):
    def __init__(self, name, at):
        super().__init__()
        self.name, self.at = name, at

    def should_terminate(self, population, best_individual, gen_number):
        TRACE.add("stop?", self.name, population, best_individual, gen_number)
        return gen_number >= self.at


class Report(Statistics):
    def __init__(self, name):
        super().__init__("")
        self.name = name

    def write_statistics(self, sender, data_dict):
        TRACE.add("report", self.name, sender, data_dict["generation_num"], data_dict["population"])


class Seeds(RNG):
    def set_seed(self, seed):
        TRACE.add("seed", seed)
        super().set_seed(seed)


class Breed(SimpleBreeder):
    def initialize(self):
        TRACE.add("initialize", "breeder")

    def apply_breed(self, population):
        TRACE.add("breed", population)
        super().apply_breed(population)


class Evaluate(SimplePopulationEvaluator):
    def initialize(self):
        TRACE.add("initialize", "evaluator")

    def _evaluate(self, population):
        TRACE.add("evaluate all", population)
        r = super()._evaluate(population)
        TRACE.add("best", r)
        return r


def draw(rng):
    kind = rng.choice([SimpleFitness, Lex, Distance, Liking, Contest])
    pop = rng.choice([2, 4, 6, 12, 24])
    ops = []
    for n in range(rng.choice([0, 1, 2, 4])):
        if rng.random() < 0.3:
            ops.append(("retry", f"r{n}", rng.choice([0.0, 0.5, 1.0]), wl.rare(rng, [1, 2, 5], [20, 40], 0.1), rng.choice([0.0, 0.5, 1.0])))
        else:
            ar = rng.choice([a for a in (1, 2, 3, 4) if pop % a == 0])
            ops.append(("shuffle", f"s{n}", ar, rng.choice([0.0, 0.5, 1.0, 1.0]), rng.random() < 0.4))
    return {"kind": kind, "pop": pop, "ops": ops, "hib": rng.random() < 0.5, "gens": rng.choice([0, 1, 2, 3, 6]),
            "elit": 0.0 if kind is Contest else rng.choice([0.0, 0.0, 0.1, 0.25, 0.5, 1.0]), "stops": [rng.choice([0, 1, 2, 4, 99]) for _ in range(rng.choice([0, 1, 2]))],
            "stats": rng.choice([0, 1, 2]), "seed": rng.choice([None, 0, rng.randrange(2 ** 32)]), "opseed": rng.getrandbits(50),
            "up": rng.random() < 0.5, "sel": rng.choice(["pick", "t"]), "method": rng.choice(["map", "submit"]), "workers": rng.choice([1, 3])}


def build(c):
    r = random.Random(c["opseed"])
    ops = [Retry(o[1], random.Random(r.random()), *o[2:]) if o[0] == "retry" else Shuffle(o[1], random.Random(r.random()), *o[2:])
           for o in c["ops"]]
    sel = Pick(random.Random(r.random()), c["hib"]) if c["sel"] == "pick" else TournamentSelection(3, higher_is_better=c["hib"])
    sp = Subpopulation(evaluator=Judge(c["kind"]), creators=Make(random.Random(r.random()), c["kind"], c["up"]), operators_sequence=ops,
                       selection_methods=[(sel, 1)], elitism_rate=c["elit"], population_size=c["pop"], higher_is_better=c["hib"])
    stops = [Stop(f"t{i}", at) for i, at in enumerate(c["stops"])]
    algo = SimpleEvolution(sp, statistics=[Report(f"p{i}") for i in range(c["stats"])], breeder=Breed(), population_evaluator=Evaluate(c["method"]),
               termination_checker=None if not stops else stops if len(stops) > 1 else stops[0], max_generation=c["gens"],
               executor="thread", max_workers=c["workers"], random_generator=Seeds(), random_seed=c["seed"])
    return algo, sp, ops


class Reader:
    """Consumes a recorded call trace."""

    def __init__(self, mon, calls, what):
        self.mon, self.calls, self.i, self.what = mon, calls, 0, what

    def peek(self):
        return self.calls[self.i] if self.i < len(self.calls) else ("nothing",)

    def take(self, kind, why=""):
        c = self.peek()
        self.mon.check(c[0] == kind, f"{self.what}: expected the call '{kind}' {why}", got=c[0], position=self.i,
                       trace=[x[0] for x in self.calls[:80]])
        self.i += 1
        self.mon.event("calls_followed")
        return c[1:]

    def end(self):
        self.mon.check(self.i == len(self.calls), f"{self.what}: further calls", got=[x[0] for x in self.calls[self.i:][:20]])


def evaluation(mon, t, algo, sp, c, members):
    """evaluate all < every individual once > best"""
    (p,) = t.take("evaluate all")
    mon.check(p is algo.population, f"{t.what}: population given to the evaluator")
    got = []
    while t.peek()[0] == "evaluate":
        got.append(t.take("evaluate"))
    mon.check(sorted(id(i) for i, _ in got) == sorted(id(i) for i in members), f"{t.what}: individuals evaluated are not the population's",
              evaluated=len(got), members=len(members))
    for i, k in got:
        mon.check(i.key() == k and i.get_pure_fitness() == score_of(c["kind"], k), f"{t.what}: fitness of an individual is not its score")
    (best,) = t.take("best")
    q = [quality(c["kind"], score_of(c["kind"], i.key()), c["hib"]) for i in members]
    mon.check(any(best is i for i in members), f"{t.what}: the best is no member")
    mon.check(quality(c["kind"], best.get_pure_fitness(), c["hib"]) == max(q), f"{t.what}: not the best by the user's comparison",
              kind=c["kind"].__name__, got=best.get_pure_fitness())
    return best, q


def runs(rng, mon):
    c = draw(rng)
    TRACE.drain()
    algo, sp, ops = build(c)
    mon.eq([x[0] for x in TRACE.drain()], [], "calls during construction")
    trace_at, pops = [], []

    def cut(s, d):
        trace_at.append(TRACE.drain())
        pops.append(list(sp.individuals))
        snap.append([(i, i.key(), i.id, i.cloned_from, tuple(i.selected_by), tuple(i.applied_operators), i.gen,
                      tuple(i.parents) if c["up"] else None) for i in sp.individuals])
        bests.append((s.best_of_run_, s.best_of_gen))
    snap, bests = [], []
    algo.register("init", lambda s, d: cut(s, d))
    algo.register("after_generation", lambda s, d: cut(s, d))
    algo.evolve()
    rest = TRACE.drain()
    G = algo.final_generation_
    # initialisation
    t = Reader(mon, trace_at[0], "initialisation")
    start = [t.take(t.peek()[0]) if t.peek()[0] in ("seed", "initialize") else t.take("seed") for _ in range(3)]
    seeds = [x for x in start if x[0] not in ("breeder", "evaluator")]
    mon.check(len(seeds) == 1, "the random generator was not seeded once before the first generation", got=start)
    s0 = seeds[0][0]
    mon.eq(s0, algo.random_seed, "seed of the run")
    if c["seed"] is not None:
        mon.eq(s0, c["seed"], "seed of the run")
    mon.eq(sorted(x[0] for x in start if x is not seeds[0]), ["breeder", "evaluator"], "components initialised")
    n, hib = t.take("create")
    mon.check(n == c["pop"] and hib == c["hib"], "arguments of the creator", got=(n, hib))
    best_run, q = evaluation(mon, t, algo, sp, c, pops[0])
    t.end()
    mon.check(bests[0][0] is best_run, "best of run after the initial evaluation")
    ended = False

    def ask(t, g, best):
        """The termination checkers' turn."""
        stop = False
        for i in range(len(c["stops"])):
            name, p, b, gn = t.take("stop?")
            mon.check(name == f"t{i}" and p is algo.population and gn == g, f"{t.what}: arguments of the termination checker", name=name, gen=gn)
            mon.check(b is best, f"{t.what}: best of run given to the termination checker")
            stop = stop or g >= c["stops"][i]
        return stop
    for g in range(1, len(trace_at)):
        # the reports of the previous generation come after the cut that was registered first
        t = Reader(mon, trace_at[g], f"generation {g}")
        first = g == 1
        if first:
            if ask(t, 0, best_run):
                ended = True
                t.what = "generation 0"
                t.end()
                mon.eq(len(trace_at), 2, "observations of a run that ended at once")
                break
        else:
            reports(mon, t, algo, c, g - 1)
        (s,) = t.take("seed")
        mon.eq(s, (s0 + g) % 2 ** 32, "seed of a generation")
        breeding(mon, t, algo, sp, c, ops, snap[g - 1], snap[g], g)
        b, q = evaluation(mon, t, algo, sp, c, pops[g])
        if quality(c["kind"], b.get_pure_fitness(), c["hib"]) > quality(c["kind"], best_run.get_pure_fitness(), c["hib"]):
            best_run = b
        mon.check(bests[g][0] is best_run, f"generation {g}: best of run by the user's comparison", kind=c["kind"].__name__)
        mon.check(bests[g][1] is b, f"generation {g}: best of generation")
        if g == len(trace_at) - 1 and c["kind"] is not Contest:
            mon.check(quality(c["kind"], algo.worst_of_gen.get_pure_fitness(), c["hib"]) == min(q), f"generation {g}: worst of generation")
        if ask(t, g, best_run):
            ended = True
            mon.eq(g, len(trace_at) - 1, "generations after a termination checker said stop")
        t.end()
        mon.event("generations_traced")
    mon.eq(G, 0 if len(trace_at) <= 2 and ended and not snap_changed(snap) else len(trace_at) - 1, "final generation")
    if not ended:
        mon.eq(G, c["gens"], "generations of a run that nobody stopped")
    # the end: reports of the last observation, then the best is shown once
    t = Reader(mon, rest, "end of the run")
    if c["gens"] == 0 and not ended:
        if c["stops"]:
            mon.check(not ask(t, 0, best_run), "a run of no generation that was stopped did not say so")
    elif len(trace_at) > 1:
        reports(mon, t, algo, c, G)
    (shown,) = t.take("show")
    mon.check(shown is algo.best_of_run_, "the individual shown at the end is not the best of run")
    t.end()
    x = rng.choice([1, "a"])
    mon.eq(algo.execute(data=x, more=2), ("executed", best_run.key(), (), (("data", x), ("more", 2))), "executing the algorithm")
    mon.sig(sorted((k, str(v)) for k, v in c.items() if k != "seed"), [[y[1] for y in x] for x in snap])
    mon.show(fitness=c["kind"].__name__, operators=[o[:3] for o in c["ops"]], generations=G, selection=c["sel"])


def snap_changed(snap):
    return [x[2] for x in snap[0]] != [x[2] for x in snap[-1]]


def reports(mon, t, algo, c, g):
    for i in range(c["stats"]):
        name, s, gn, p = t.take("report")
        mon.check(name == f"p{i}" and s is algo and gn == g and p is algo.population, f"{t.what}: arguments of the statistics", name=name, gen=gn, want=g)
        mon.event("reports_followed")


def breeding(mon, t, algo, sp, c, ops, prev, now, g):
    (p,) = t.take("breed")
    mon.check(p is algo.population, f"{t.what}: population given to the breeder")
    ne = round(c["elit"] * c["pop"])
    dest = []
    if c["sel"] == "pick":
        src, dest = t.take("select")
        mon.check(len(src) == len(prev) and all(a is b[0] for a, b in zip(src, prev)), f"{t.what}: source of the selection")
        mon.eq(len(dest), ne, f"{t.what}: elites in the destination of the selection")
    keys = {b[2]: b[1] for b in prev}
    # operators: groups in order, as many as there are
    seqs = []
    for o, conf in zip(ops, c["ops"]):
        n = (c["pop"] - ne) // o.arity
        acted = 0
        while t.peek()[0] in ("apply", "attempt", "failed") and t.peek()[1] == o.name:
            if conf[0] == "shuffle":
                _, ins, before, fit, out = t.take("apply")
                mon.eq(len(ins), o.arity, f"{t.what}: individuals given to an operator", arity=o.arity)
                mon.check(not any(fit), f"{t.what}: individuals given to an operator still have fitness")
                mon.eq(len(set(map(id, ins))), len(ins), f"{t.what}: an individual twice in the group of an operator")
                seqs.append((o.name, ins, out))
                acted += 1
            else:
                tries = 0
                while t.peek()[0] == "attempt" and t.peek()[1] == o.name:
                    _, ins, k = t.take("attempt")
                    mon.check(k == tries, f"{t.what}: number of the attempt", got=k, want=tries)
                    tries += 1
                    seqs.append((o.name, ins, ins))
                    if t.peek()[0] == "attempt" and t.peek()[3] == 0:
                        break
                if tries == o.attempts and t.peek()[0] == "failed":
                    mon.check(o.fails > 0, f"{t.what}: on_fail of an operator whose attempt succeeded")
                    _, given, out = t.take("failed")
                    seqs[-1] = (o.name, ins, out)
                    mon.check(len(given) == 1 and given[0] is ins[0], f"{t.what}: individuals given to on_fail")
                    mon.event("failures_followed")
                else:
                    mon.check(o.fails < 1 and (o.fails > 0 or tries == 1), f"{t.what}: attempts of an operator", got=tries, fails=o.fails)
                    mon.check(tries <= o.attempts and t.peek()[0] != "failed", f"{t.what}: attempts of an operator", got=tries, want=o.attempts)
                acted += 1
        pr = conf[3] if conf[0] == "shuffle" else conf[2]
        mon.check(acted <= n and (pr > 0 or acted == 0) and (pr < 1 or acted == n), f"{t.what}: applications of an operator", operator=o.name,
                  probability=pr, got=acted, groups=n)
        mon.event("applications_followed", acted)
    # what the operators returned is what the population holds
    final = {id(x[0]) for x in now}
    last = {}
    for name, ins, out in seqs:
        for x in ins:
            last[id(x)] = (x, None)
        for x in out:
            last[id(x)] = (x, name)
    for i, n in last.values():
        if n is not None:
            mon.check(id(i) in final, f"{t.what}: the result of an operator is not in the population", operator=n)
        else:
            mon.check(id(i) not in final, f"{t.what}: an individual that an operator replaced is still in the population")
    mon.eq(len(now), c["pop"], f"{t.what}: population size")
    mon.eq(len({x[2] for x in now}), c["pop"], f"{t.what}: ids")
    history(mon, t, c, ops, seqs, now, keys, ne, g)


def history(mon, t, c, ops, seqs, now, keys, ne, g):
    cls = {o.name: type(o).__name__ for o in ops}
    touched = {}
    for name, ins, out in seqs:
        if cls[name] == "Retry":
            for x in out:
                if not any(x is y for y in ins):
                    touched[id(x)] = None
                    continue
                h = touched.setdefault(id(x), [])
                if h is not None and (not h or h[-1] != name):
                    h.append(name)
        else:
            hist = [touched.get(id(x), []) for x in ins]
            pos = {id(x): k for k, x in enumerate(ins)}
            for k, x in enumerate(out):
                src = pos.get(id(x), None)
                if src is None:     # new objects carry on the history they copied
                    touched[id(x)] = None
                else:
                    touched[id(x)] = (None if hist[src] is None else hist[src] + [name])
    for k, (i, key, iid, cf, sel, app, gen, par) in enumerate(now):
        mon.eq(gen, g, f"{t.what}: generation number of an individual")
        mon.check(cf in keys, f"{t.what}: parent of an individual is not of the previous generation", cloned_from=cf)
        want = touched.get(id(i), [])
        if want is not None:
            mon.eq(list(app), [cls[n] for n in want], f"{t.what}: operators recorded")
        if not app:
            mon.check(key == keys[cf], f"{t.what}: an individual without operators differs from its parent", elite=k < ne)
            mon.event("unchanged_individuals")
        mon.eq(sel, ("ElitismSelection",) if k < ne else ("Pick",) if c["sel"] == "pick" else ("TournamentSelection",),
               f"{t.what}: selection recorded")


SCENARIOS = [
    Scenario(runs, 16000, 200000, needs=("calls_followed", "generations_traced", "reports_followed", "applications_followed",
                                       "failures_followed", "unchanged_individuals")),
]
