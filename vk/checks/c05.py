"""C05: elitism."""
from collections import Counter

from vk import wl
from vk.core import Scenario

PROPERTY = "C05"
LEVEL = "exploration"
RULE = ("A case is a whole run or a sequence of direct breedings (1-3 subpopulations) drawn over elitism rates 0..1, sizes, "
        "directions, bloat weights, tied landscapes and operators of arity 1-6 that overwrite genomes with values never "
        "seen before. The operators' apply calls are logged. After each generation the monitor takes the individuals no "
        "operator has touched and requires them to contain, as a multiset of genomes, every strictly-better-than-the-cut "
        "individual and enough of the tie class at the cut of the previous generation. Non-trivial: at least one elite "
        "and one operator application; distinct by configuration.")
ASSUMPTIONS = ["evaluators are deterministic functions of the genome and return no NaN"]


def elite_check(mon, prev, n_elite, untouched, hib, what):
    """prev: [(genome, adjusted score)], untouched: genomes no operator touched."""
    if n_elite == 0:
        return
    ranked = sorted(prev, key=lambda t: t[1], reverse=hib)
    cut = ranked[n_elite - 1][1]
    have = Counter(untouched)
    must = Counter(g for g, a in prev if wl.better(a, cut, hib))
    for g, k in must.items():
        mon.check(have[g] >= k, f"{what}: an elite is missing or was changed", elite=g, needed=k, found=have[g],
                  n_elite=n_elite)
    rest = n_elite - sum(must.values())
    have.subtract(must)
    ties = Counter(g for g, a in prev if a == cut)
    got = sum(min(k, max(0, have[g])) for g, k in ties.items())
    mon.check(got >= rest, f"{what}: too few of the individuals tied at the elite cut survive unchanged",
              needed=rest, found=got, n_elite=n_elite, n=len(prev))
    mon.event("elite_sets_checked")
    mon.event("elites_checked", n_elite)
    if len(ties) > rest:
        mon.event("ties_at_cut")


class Log(list):
    """All operator calls of a population, and those of each operator."""

    def __init__(self, ops):
        super().__init__()
        self.per_op = []
        for op in ops:
            calls = []
            self.per_op.append((op, calls))
            wl.record_op(op, calls)
            wl.record_op(op, self)

    def clear(self):
        super().clear()
        for _, calls in self.per_op:
            calls.clear()


def exempt(mon, ops, untouched, n_elite, what, log, n):
    """With an operator that is certain to be applied to each individual, only the elites stay untouched."""
    for op, calls in log.per_op:
        if op.probability == 1:
            groups = (n - n_elite) // op.arity
            mon.eq((len(calls), len({id(x) for _, a, _ in calls for x in a})), (groups, groups * op.arity),
                   f"{what}: calls of an operator with probability 1 and the individuals it was handed", arity=op.arity,
                   n=n, n_elite=n_elite)
            mon.event("full_operator_passes_checked")
    if any(o.arity == 1 and o.probability == 1 for o in ops):
        mon.check(len(untouched) == n_elite, f"{what}: number of individuals exempt from the operators", got=len(untouched), n_elite=n_elite)
        mon.event("exempt_sets_checked")


def fresh_ops(rng, pop):
    ops = []
    for a in rng.sample([1, 1, 2, 2, 3, 4, 6], rng.choice([1, 2, 3])):
        if pop % a == 0:
            ops.append(wl.Opaque(probability=rng.choice([0.2, 0.9, 1.0, 1.0]), arity=a))
    return ops


def runs(rng, mon):
    rate = rng.choice([0.0, 0.01, 0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 1 / 3, 0.5, 0.6, 0.75, 0.9, 1.0, rng.random()])
    c = wl.draw_cfg(rng, elit=[rate], pops=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 12, 18, 20, 24, 36, 60, 72, 144], big=0)
    if c["sel"][0] == "tn":
        c["sel"] = ("tn", min(c["sel"][1], c["pop"]))
    extra = fresh_ops(rng, c["pop"]) if rng.random() < 0.7 else []
    algo, sp, sets = wl.build(c, extra_ops=[])
    ops = sp.get_operators_sequence()
    if extra and c["enc"] in wl.CREATORS and rng.random() < 0.6:
        ops[:] = extra
    else:
        ops += extra
    ops[:] = [o for o in ops if c["pop"] % o.arity == 0]
    if not ops:
        ops.append(wl.Opaque())
    log = Log(ops)
    f = wl.LANDSCAPES[c["land"]]
    n_elite = round(c["elit"] * c["pop"])
    st = {"prev": None, "n": 0}

    def look(s, d):
        now = [(wl.genome(i), wl.aug(i, f(wl.genome(i)), c)) for i in sp.individuals]
        if st["prev"] is not None:
            st["n"] += 1
            seen = {id(x) for _, a, b in log for x in a + b}
            untouched = [wl.genome(i) for i in sp.individuals if id(i) not in seen]
            elite_check(mon, st["prev"], n_elite, untouched, c["hib"], f"generation {st['n']}")
            exempt(mon, ops, untouched, n_elite, f"generation {st['n']}", log, c["pop"])
            if n_elite:
                a = wl.best_of([x for _, x in st["prev"]], c["hib"])
                b = wl.best_of([x for _, x in now], c["hib"])
                mon.check(not wl.better(a, b, c["hib"]), f"generation {st['n']}: the best fitness regressed", before=a,
                          after=b, n_elite=n_elite)
            if n_elite and log:
                mon.sig(wl.cfg_sig(c), [(type(o).__name__, o.arity) for o in ops])
                mon.show(cfg=c, n_elite=n_elite, operator_calls=len(log))
            log.clear()
        st["prev"] = now

    algo.register("init", look)
    algo.register("after_generation", look)
    algo.evolve()
    mon.reraise()
    mon.eq(st["n"], c["gens"], "generations observed")


def breeder(rng, mon):
    """Direct breeding with arbitrary fitness values on the individuals (several subpopulations)."""
    from eckity.breeders import SimpleBreeder
    from eckity.population import Population
    sps, cs, logs = [], [], []
    for _ in range(rng.choice([1, 1, 2, 3])):
        rate = rng.choice([0.0, 0.1, 0.25, 0.3, 0.5, 0.5, 0.75, 1.0, rng.random()])
        c = wl.draw_cfg(rng, elit=[rate], pops=[2, 3, 4, 6, 8, 9, 10, 12, 18, 24, 30], big=0)
        c["sel"] = ("t", rng.choice([1, 2, 5]))
        algo, sp, sets = wl.build(c)
        algo.executor.shutdown()
        ops = sp.get_operators_sequence()
        ops[:] = [o for o in ops if c["pop"] % o.arity == 0] if rng.random() < 0.4 else []
        ops += fresh_ops(rng, c["pop"])
        if not ops:
            ops.append(wl.Opaque())
        log = Log(ops)
        sp.create_subpopulation_individuals()
        sps.append(sp), cs.append(c), logs.append(log)
    br = SimpleBreeder()
    vals = rng.choice([[0.0, 1.0], [0.0], [-1.5, 2.5, 7.0, 1e308, -1e308], None, [float("inf"), 0.0, -float("inf")]])
    for g in range(rng.choice([1, 2, 3])):
        prev = []
        for sp, c in zip(sps, cs):
            table = {}
            for i in sp.individuals:
                k = wl.genome(i)
                table.setdefault(k, rng.choice(vals) if vals else rng.gauss(0, 10))
                i.fitness.set_fitness(table[k])
            prev.append([(wl.genome(i), wl.aug(i, table[wl.genome(i)], c)) for i in sp.individuals])
        br.breed(Population(sps))
        for sp, c, log, p in zip(sps, cs, logs, prev):
            seen = {id(x) for _, a, b in log for x in a + b}
            untouched = [wl.genome(i) for i in sp.individuals if id(i) not in seen]
            n_elite = round(c["elit"] * c["pop"])
            elite_check(mon, p, n_elite, untouched, c["hib"], f"breeding {g}")
            exempt(mon, sp.get_operators_sequence(), untouched, n_elite, f"breeding {g}", log, c["pop"])
            if n_elite and log:
                mon.sig(wl.cfg_sig(c), g)
            log.clear()


SCENARIOS = [
    Scenario(runs, 1600, 24000, needs=("elite_sets_checked", "ties_at_cut", "exempt_sets_checked")),
    Scenario(breeder, 1200, 16000, needs=("elite_sets_checked", "ties_at_cut")),
]
