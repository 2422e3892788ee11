"""C04: every generation is a full population of fresh, unaliased individuals."""
from vk import wl
from vk.core import Scenario

PROPERTY = "C04"
LEVEL = "exploration"
RULE = ("A case is a whole run, or a sequence of direct breeder calls on 1-3 subpopulations, drawn over encodings, sizes, "
        "selections, operator sequences of arity 1-4, elitism and generations. At init and after each generation the "
        "monitor checks sizes, ids against every id seen in the run, identity of all mutable parts against this and the "
        "previous generation (whose objects it keeps alive), cloned_from against the previous generation's ids, gen, and "
        "selected_by / applied_operators against a log of the operators' apply calls. Non-trivial: at least one generation "
        "bred; distinct by configuration.")
ASSUMPTIONS = ["user operators return the individuals they were given"]

UNI = ("FloatVectorUniformOnePointMutation", "FloatVectorUniformNPointMutation")


class Tracker:
    def __init__(self, mon, names):
        self.mon = mon
        self.ids = set()
        self.prev = None
        self.names = names      # allowed selection class names
        self.snap = None

    def population(self, inds, size, gen, log, what, n_elite=0, first=False, check_gen=True):
        mon = self.mon
        mon.eq(len(inds), size, f"{what}: population size")
        seen = {}
        for k, ind in enumerate(inds):
            for i, part in wl.state_ids(ind).items():
                mon.check(i not in seen, f"{what}: individual {k} shares its {part} with individual {seen.get(i)}")
                seen[i] = k
            mon.check(ind.id not in self.ids, f"{what}: id {ind.id} was used before in this run")
            self.ids.add(ind.id)
        if self.prev is not None:
            old = {}
            for p in self.prev:
                old.update(wl.state_ids(p))
            for k, ind in enumerate(inds):
                for i, part in wl.state_ids(ind).items():
                    mon.check(i not in old, f"{what}: individual {k} shares its {part} with the previous generation")
            pids = {p.id for p in self.prev}
            applied = {}
            for name, before, res in log:
                for r in res:
                    applied.setdefault(id(r), []).append(name)
            elites = 0
            for k, ind in enumerate(inds):
                mon.check(ind.cloned_from in pids, f"{what}: individual {k} is not a clone of a previous individual",
                          cloned_from=ind.cloned_from)
                if check_gen:
                    mon.eq(ind.gen, gen, f"{what}: generation number of individual {k}")
                mon.check(len(ind.selected_by) == 1 and ind.selected_by[0] in self.names + ("ElitismSelection",),
                          f"{what}: selection history of individual {k}", got=ind.selected_by)
                elites += ind.selected_by == ["ElitismSelection"]
                got = list(ind.applied_operators)
                want = applied.get(id(ind), [])
                if got != want:   # Gaussian mutation may have fallen back on the uniform one
                    red = [n for j, n in enumerate(got)
                           if not (n in UNI and j + 1 < len(got) and "Gauss" in got[j + 1])]
                    mon.eq(red, want, f"{what}: operators recorded on individual {k}")
                mon.event("individuals_tracked")
                if want:
                    mon.event("individuals_with_operators")
            mon.eq(elites, n_elite, f"{what}: number of individuals selected as elites")
            # the previous generation was only read: its genomes are as they were
            for p, s in zip(self.prev, self.snap):
                mon.eq(wl.genome(p), s, f"{what}: breeding changed an individual of the previous generation")
        self.prev = list(inds)
        self.snap = [wl.genome(i) for i in inds]


def advance_ids(rng, mon):
    """Sometimes continue as if many individuals had been made before (the id counter is a class attribute)."""
    from eckity.individual import Individual
    if rng.random() < 0.5 and type(getattr(Individual, "id", None)) is int:
        top = rng.choice([1 << rng.randrange(5, 65), 10 ** rng.randrange(2, 20)])
        Individual.id = max(1, top - rng.randrange(1, 60))
        mon.event("id_counter_advanced")


SEL = {"t": ("TournamentSelection",), "tn": ("TournamentSelection",), "fp": ("FitnessProportionateSelection",)}


def many(rng, mon):
    """Very many individuals in one process: all ids differ."""
    from eckity.fitness import SimpleFitness
    from eckity.genetic_encodings.ga import IntVector
    f = SimpleFitness()
    n = rng.choice([40000, 140000])
    ids = set()
    ind = IntVector(f, 1, (0, 1), vector=[0])
    for k in range(n):
        ids.add(IntVector(f, 1, (0, 1)).id if k % 16 else ind.clone().id)
    mon.eq(len(ids), n, "individuals made in one process share ids")
    mon.event("ids_compared", n)
    mon.sig(n)


def runs(rng, mon):
    advance_ids(rng, mon)
    c = wl.draw_cfg(rng, pops=[2, 4, 4, 6, 8, 10, 12, 12, 20, 24, 48, 96, 144], big=0)
    extra = []
    if rng.random() < 0.5:
        for a in rng.sample([1, 2, 3, 4, c["pop"]], rng.choice([1, 2])):
            if c["pop"] % a == 0:
                extra.append(wl.Opaque(probability=rng.choice([0.3, 1.0]), arity=a))
    if c["enc"] in ("gp", "gpt") and c["bloat"] and c["sel"][0] == "fp":
        c["bloat"] = 0.0
    algo, sp, sets = wl.build(c, extra_ops=extra, update_parents=rng.random() < 0.3)
    log = []
    for op in sp.get_operators_sequence():
        wl.record_op(op, log)
    tr = Tracker(mon, SEL[c["sel"][0]])
    n_elite = round(c["elit"] * c["pop"])
    n = [0]

    def on_init(s, d):
        tr.population(sp.individuals, c["pop"], 0, [], "initial population")

    def on_gen(s, d):
        n[0] += 1
        tr.population(sp.individuals, c["pop"], n[0], log, f"generation {n[0]}", n_elite)
        log.clear()

    algo.register("init", on_init)
    algo.register("after_generation", on_gen)
    algo.evolve()
    mon.reraise()
    mon.eq(n[0], c["gens"], "generations observed")
    mon.event("generations_observed", n[0])
    if n[0]:
        mon.sig(wl.cfg_sig(c), [type(o).__name__ + str(o.arity) for o in extra])
        mon.show(cfg=c, generations=n[0])


def breeder(rng, mon):
    """SimpleBreeder used directly, on one or several subpopulations."""
    from eckity.breeders import SimpleBreeder
    from eckity.population import Population
    advance_ids(rng, mon)
    sps, trs, logs, cs = [], [], [], []
    for _ in range(rng.choice([1, 2, 3])):
        c = wl.draw_cfg(rng, pops=[2, 4, 6, 12, 12, 18, 24], big=0)
        if c["sel"][0] == "fp":
            c["bloat"] = 0.0
        extra = [wl.Opaque(arity=a, probability=rng.choice([0.5, 1.0])) for a in rng.sample([1, 2, 3, 6], 2)
                 if c["pop"] % a == 0]
        algo, sp, sets = wl.build(c, extra_ops=extra, update_parents=rng.random() < 0.3)
        algo.executor.shutdown()
        sp.create_subpopulation_individuals()
        log = []
        for op in sp.get_operators_sequence():
            wl.record_op(op, log)
        tr = Tracker(mon, SEL[c["sel"][0]])
        tr.population(sp.individuals, c["pop"], 0, [], "created population")
        sps.append(sp), trs.append(tr), logs.append(log), cs.append(c)
    pop = Population(sps)
    br = SimpleBreeder()
    for g in range(rng.choice([1, 2, 4])):
        for sp, c in zip(sps, cs):
            for i in sp.individuals:
                s = wl.LANDSCAPES[c["land"]](wl.genome(i))
                i.fitness.set_fitness(s)
        how = rng.randrange(3)
        [br.breed, br.act, br.apply_operator][how](pop)
        mon.check(pop.sub_populations is not None and len(pop.sub_populations) == len(sps) and
                  all(a is b for a, b in zip(pop.sub_populations, sps)), "breeding replaced the subpopulations")
        for sp, tr, log, c in zip(sps, trs, logs, cs):
            tr.population(sp.individuals, c["pop"], g, log, f"breeding {g}", round(c["elit"] * c["pop"]),
                          check_gen=False)
            log.clear()
        mon.event("breedings")
    mon.sig([wl.cfg_sig(c) for c in cs])


SCENARIOS = [
    Scenario(many, 8, 16, needs=("ids_compared",)),
    Scenario(runs, 1200, 24000, needs=("individuals_tracked", "individuals_with_operators")),
    Scenario(breeder, 600, 9000, needs=("breedings",)),
]
