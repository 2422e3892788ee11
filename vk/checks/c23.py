"""C23: multi-objective runs."""
from collections import Counter

from vk import mo, wl
from vk.core import Scenario

PROPERTY = "C23"
LEVEL = "exploration"
RULE = ("A case is a whole multi-objective run (1-4 objectives, common or per-objective directions, landscapes with ties, single "
        "fronts, chains and constants, 2-30 individuals, default or given components, thread or process workers)"
        ". At the init and after_generation events the monitor records the population and, from the recording "
        "evaluator, everything evaluated in between, and checks size, identity, sharing, objective values, the front-by-front "
        "choice from parents and offspring, the progress conditions against the previous generation and the reported best "
        "of generation. Non-trivial: at least one generation with two different objective vectors; distinct by configuration.")
ASSUMPTIONS = ["deterministic evaluators without NaN",
               "extremes of all objectives have room when the population has at least twice as many individuals as objectives"]


def key(v):
    return tuple(wl.num(x) for x in v)


class Watch:
    def __init__(self, mon, c, sp, ev, name):
        self.mon, self.c, self.sp, self.ev, self.name = mon, c, sp, ev, name
        self.dirs = mo.directions(c)
        self.prev = None
        self.varied = False

    def look(self, gen, algo, index):
        mon, sp, c = self.mon, self.sp, self.c
        inds = list(sp.individuals)
        N = c["pop"]
        mon.eq(len(inds), N, f"population size in generation {gen}")
        mon.check(len({id(i) for i in inds}) == N, "the same object occurs twice in the population")
        mon.check(len({i.id for i in inds}) == N, "two individuals have the same id")
        seen = {}
        for i in inds:
            for k, part in wl.state_ids(i).items():
                mon.check(k not in seen, f"two individuals share their {part}")
                seen[k] = part
        objs = []
        gens = []
        for i in inds:
            g = wl.genome(i)
            want = mo.objectives(c["kind"], c["m"], g)
            mon.eq(list(i.get_pure_fitness()), want, "objective values are not the evaluator's for the genome", genome=g)
            objs.append(want)
            gens.append(g)
            mon.eq(i.gen, gen, "generation number of an individual") if gen else None
        log = self.ev.drain() if c["exec"] == "thread" else None
        if self.prev is not None:
            pg, po = self.prev
            if log is not None:
                pool = {g for _, g, _ in log} | set(pg)
                for g in gens:
                    mon.check(g in pool, "a survivor is neither of the previous generation nor an evaluated offspring")
            # progress
            now = Counter(gens)
            nondom = not any(mo.dominates(a, b, self.dirs) for a in objs for b in objs)
            for g, n in Counter(pg).items():
                if now[g] >= n or nondom:
                    continue
                v = mo.objectives(c["kind"], c["m"], g)
                mon.check(any(mo.dominates(o, v, self.dirs) for o in objs),
                          "an individual was lost that no survivor dominates, although survivors dominate each other",
                          lost=v, survivors=objs)
            mon.event("progress_checks", len(pg))
            if N >= 2 * c["m"]:
                for j, h in enumerate(self.dirs):
                    a, b = wl.best_of([o[j] for o in po], h), wl.best_of([o[j] for o in objs], h)
                    mon.check(not wl.better(a, b, h), "an objective's best value got worse", objective=j, before=a, after=b)
                mon.event("extremes_checked")
            # choice front by front from exactly parents and offspring
            if log is not None and len(log) == 2 * N:
                pobj = [r for _, _, r in log]
                have = Counter(g for _, g, _ in log)
                if all(have[g] >= n for g, n in Counter(pg).items()):
                    left = N
                    at = {}
                    for q, (i, g, r) in enumerate(log):
                        at[id(i)] = q
                    mon.check(all(id(i) in at for i in inds), "a survivor was not evaluated in this generation")
                    chosen = {at[id(i)] for i in inds}
                    for k, f in enumerate(mo.fronts(pobj, self.dirs)):
                        take = min(left, len(f))
                        mon.eq(len([q for q in f if q in chosen]), take, f"survivors from front {k + 1}", front=len(f))
                        left -= take
                    mon.event("selections_checked")
            rep = algo.best_of_gen[index]
            best = {id(inds[a]) for a in range(N)
                    if not any(mo.dominates(objs[b], objs[a], self.dirs) for b in range(N))}
            mon.check({id(i) for i in rep} == best and len(rep) == len(best),
                      "best of generation is not the survivors' non-dominated set", reported=len(rep), want=len(best))
            mon.event("fronts_checked")
        self.prev = (gens, objs)
        if len({key(o) for o in objs}) > 1:
            self.varied = True
        mon.event("generations")


def runs(rng, mon):
    c = mo.draw_mo(rng, max_gen=rng.choice([1, 2, 3, 4, 8]), big=0.03)
    ev = mo.MOEval(c["kind"], c["m"])
    algo, sp = mo.build_mo(c, evaluator=ev)
    w = Watch(mon, c, sp, ev, "run")
    algo.register("init", lambda s, d: w.look(0, algo, 0))
    algo.register("after_generation", lambda s, d: w.look(d["generation_num"], algo, 0))
    algo.evolve()
    mon.eq(len(sp.individuals), c["pop"], "population size after the run")
    if w.varied:
        mon.sig(wl.cfg_sig(c))
        mon.show(**{k: c[k] for k in ("enc", "m", "kind", "pop", "gens", "hib")})


def processes(rng, mon):
    c = mo.draw_mo(rng, max_gen=2, pops=[4, 6], executors=("process",))
    algo, sp = mo.build_mo(c)
    w = Watch(mon, c, sp, mo.MOEval(c["kind"], c["m"]), "process run")
    algo.register("init", lambda s, d: w.look(0, algo, 0))
    algo.register("after_generation", lambda s, d: w.look(d["generation_num"], algo, 0))
    algo.evolve()
    mon.sig(wl.cfg_sig(c))


SCENARIOS = [
    Scenario(runs, 1200, 20000, needs=("progress_checks", "extremes_checked", "selections_checked", "fronts_checked")),
    Scenario(processes, 8, 60),
]
