"""C03: best/worst reports."""
import copy
import math

from vk import wl
from vk.core import Scenario

PROPERTY = "C03"
LEVEL = "exploration"
RULE = ("A case is a whole run (or a sequence of generations) drawn over encodings, landscapes (ties, signed zeros, last-bit "
        "differences, infinities, huge, denormal), directions, bloat weights, elitism, operators (including one that "
        "overwrites genomes in place). At init and at every after_generation event the monitor recomputes all adjusted "
        "scores from the genomes, compares best/worst of generation with their extremes, tracks the best adjusted score "
        "ever evaluated, and compares the best of run with the snapshot taken when it was first reported. Non-trivial: at "
        "least one generation was bred; distinct by configuration.")
ASSUMPTIONS = ["evaluators are deterministic functions of the genome and return no NaN"]


def snapshot(b):
    """Everything a user reads from a reported individual: genome, scores with and without bloat control."""
    return (wl.genome(b), wl.fit_key(b), wl.num(b.get_augmented_fitness()))


def watch(mon, algo, sp, c, ev):
    st = {"best": None, "obj": None, "snap": None, "gens": 0, "log": []}
    f = wl.LANDSCAPES[c["land"]]

    def score(ind):
        return wl.aug(ind, f(wl.genome(ind)), c)

    def look(s, d, gen):
        # scores of everything evaluated since the last look, by genome at evaluation time
        for ind, g, sc in ev.drain():
            a = wl.aug(ind, sc, c)
            if st["best"] is None or wl.better(a, st["best"], c["hib"]):
                st["best"] = a
        inds = sp.individuals
        vals = [score(i) for i in inds]
        b = algo.best_of_run_
        mon.check(b is not None, f"generation {gen}: no best of run")
        bs = score(b)
        mon.check(bs == st["best"], f"generation {gen}: best of run is not the best individual evaluated so far",
                  best_of_run=bs, best_seen=st["best"], hib=c["hib"], cfg=c)
        mon.check(b.get_pure_fitness() == f(wl.genome(b)), f"generation {gen}: best of run's fitness is not its genome's",
                  got=b.get_pure_fitness(), want=f(wl.genome(b)))
        snap = snapshot(b)
        if st["obj"] is b:
            mon.eq(snap, st["snap"], f"generation {gen}: the best of run changed in place")
        else:
            if st["obj"] is not None:
                mon.event("best_of_run_replaced")
            st["obj"], st["snap"] = b, snap
            st["copy"] = copy.deepcopy(b)
        if gen > 0:
            if d is not None:
                mon.check(d["best_of_run_"] is b, "event data names another best of run")
                mon.check(d["best_of_gen"] is algo.best_of_gen, "event data names another best of generation")
            for name, ind, ext in (("best_of_gen", algo.best_of_gen, wl.best_of(vals, c["hib"])),
                                   ("worst_of_gen", algo.worst_of_gen, wl.best_of(vals, not c["hib"]))):
                mon.check(any(ind is i for i in inds), f"generation {gen}: {name} is not in the current population",
                          cfg=c)
                mon.check(score(ind) == ext, f"generation {gen}: {name} is not extreme", got=score(ind), want=ext,
                          scores=vals, hib=c["hib"])
            mon.event("generations_checked")
            if len(set(vals)) < len(vals):
                mon.event("generations_with_ties")
        st["gens"] += 1

    algo.register("init", lambda s, d: look(s, d, 0))
    algo.register("after_generation", lambda s, d: look(s, d, d["generation_num"]))
    return st


def check_end(mon, rng, algo, sp, sets, st):
    b = algo.best_of_run_
    mon.check(b is st["obj"], "the best of run changed after the last generation")
    mon.eq(snapshot(b), st["snap"], "the best of run changed after the last generation")
    for _ in range(2):
        if sets is None:
            got = algo.execute()
            mon.check(tuple(wl.num(x) for x in got) == st["snap"][0], "execute does not return the best vector", got=got)
        else:
            env = wl.draw_env(rng, sets)
            got = algo.execute(**env)
            want = wl.interp(st["copy"].tree, env)
            mon.check(wl.same_value(got, want), "execute differs from the best individual's program", got=got, want=want,
                      tree=st["snap"][0], env=env)
        mon.event("executions_compared")
    mon.eq(snapshot(b), st["snap"], "executing changed the best of run")


def runs(rng, mon):
    c = wl.draw_cfg(rng)
    if c["land"] == "inf" and rng.random() < 0.5:
        c["land"] = "hash"
    ev = wl.CountingEval(c["land"])
    extra = [wl.Opaque(probability=rng.choice([0.1, 0.5, 1.0]))] if c["enc"] in ("int", "float") and rng.random() < 0.4 else []
    algo, sp, sets = wl.build(c, evaluator=ev, extra_ops=extra)
    st = watch(mon, algo, sp, c, ev)
    algo.evolve()
    mon.reraise()
    mon.eq(st["gens"], c["gens"] + 1, "number of observed generations")
    check_end(mon, rng, algo, sp, sets, st)
    if c["gens"]:
        mon.sig(wl.cfg_sig(c))
        mon.show(cfg=c, best=st["best"])


class Scripted(wl.CountingEval):
    """Scores depend on the evaluation's position in the run, so the best can appear anywhere."""

    def __init__(self, script):
        super().__init__("hash")
        self.script = script
        self.n = 0

    def evaluate_individual(self, individual):
        with self._lock:
            s = self.script[self.n]
            self.n += 1
            self.log.append((individual, wl.genome(individual), s))
        return s


def large(rng, mon):
    """Large populations with one extreme score anywhere."""
    scripted(rng, mon, big=True)


def scripted(rng, mon, big=False):
    """Scripted score sequences: the best, or the worst, of the run at a drawn generation and position."""
    c = wl.draw_cfg(rng, encs=("bit",) if big else ("bit", "int", "float", "gp"), pops=[2, 4, 6, 10], max_gen=rng.choice([1, 2, 3, 5]))
    if big:
        c.update(pop=rng.choice([300, 600, 1200, 2500, 5000]), gens=rng.choice([0, 1, 1, 2]))
    c["sel"] = ("t", rng.choice([1, 2, 3]))
    c["workers"] = 1          # evaluation order is the population order
    P, G = c["pop"], c["gens"]
    n = P * (G + 1)
    kind = rng.choice(["const_peak"] * (8 if big else 1) + ["descending", "ascending", "random", "alternate", "negative", "close"])
    if kind == "const_peak":
        s = [1.0] * n
        s[rng.randrange(n)] = rng.choice([5.0, -5.0])
    elif kind == "descending":
        s = [float(-i) for i in range(n)]
    elif kind == "ascending":
        s = [float(i) for i in range(n)]
    elif kind == "alternate":
        s = [float((-1) ** (i // P) * (i % P + 1)) for i in range(n)]
    elif kind == "negative":
        s = [-rng.random() - 1 for _ in range(n)]
    elif kind == "close":
        s = [math.nextafter(1.0, 2.0) if rng.random() < 0.2 else 1.0 for _ in range(n)]
    else:
        s = [rng.choice([rng.uniform(-5, 5), 0.0, 1.0]) for _ in range(n)]
    ev = Scripted(s)
    algo, sp, sets = wl.build(c, evaluator=ev)
    best = [None, None]

    def look(sd, d, gen):
        log = ev.drain()
        by = {id(i): (sc, wl.aug(i, sc, c)) for i, g, sc in log}
        mon.eq(len(by), P, f"generation {gen}: every individual evaluated once")
        for sc, a in by.values():
            if best[0] is None or wl.better(a, best[0], c["hib"]):
                best[0] = a
        b = algo.best_of_run_
        got = wl.aug(b, b.get_pure_fitness(), c)
        mon.check(got == best[0], f"generation {gen}: best of run is not the best score of the run so far", got=got,
                  want=best[0], script=kind, hib=c["hib"])
        if best[1] is not None and best[1][0] is b:
            mon.eq(snapshot(b), best[1][1], "the best of run changed in place")
        best[1] = (b, snapshot(b))
        if gen:
            vals = [by[id(i)][1] for i in sp.individuals]
            mon.check(by[id(algo.best_of_gen)][1] == wl.best_of(vals, c["hib"]), "best_of_gen is not the best", vals=vals)
            mon.check(by[id(algo.worst_of_gen)][1] == wl.best_of(vals, not c["hib"]), "worst_of_gen is not the worst",
                      vals=vals)
        mon.event("scripted_generations")

    algo.register("init", lambda s_, d: look(s_, d, 0))
    algo.register("after_generation", lambda s_, d: look(s_, d, d["generation_num"]))
    algo.evolve()
    mon.sig(kind, wl.cfg_sig(c))


SCENARIOS = [
    Scenario(runs, 1600, 30000, needs=("generations_checked", "best_of_run_replaced", "generations_with_ties")),
    Scenario(scripted, 800, 12000, needs=("scripted_generations",)),
    Scenario(large, 40, 600, needs=("scripted_generations",)),
]
